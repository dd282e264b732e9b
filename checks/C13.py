# -*- coding: utf-8 -*-
"""C13  statistics of graph banks and parallel graph corpora"""
from helpers import *
from corpora import *
from daeso.pgc import pgcstats as m
from daeso.gb import gbstats as g

META = {
    "first": ["nodes-1", "graphs"],
    "bounds": {"quick": "a corpus of up to 3 graph pairs over banks of 2 + 1 graphs, every choice of failed parses, aligned and unaligned roots, pairs present or not, and every setting of the options; one pair of graphs with up to 2 aligned inner node pairs, every choice of empty, punctuation and word nodes, of relations and of the options; two corpora; graph banks of up to 2 graphs",
               "thorough": "in addition 3 aligned node pairs and 2 + 2 graphs"},
    "outside": "larger corpora (counts are sums); the threshold option (not implemented); the layout of the printed tables",
    "assumptions": ["relations are those of the DAESO annotation",
                    "reading a corpus or graph bank file is replaced by handing out a prepared one (C04 to C06 are about reading)",
                    "failed parses, which only Alpino graphs have, are graphs that say so"],
}

RELS = [("equals", "EQ"), ("restates", "RE"), ("specifies", "SPEC"), ("generalizes", "GEN"), ("intersects", "INT")]


class Graph(DaesoGraph):
    failed = False

    def is_failed_parse(self):
        return self.failed


def make(gid, tokens=("w", ".", "w2")):
    g = Graph(gid, list(tokens), "r")
    g.add_node("r", "top", ["w", "."])
    return g


def bank(path, graphs):
    b = GraphBank(path, "graphml")
    b._id2graph = dict([(g.id, g) for g in graphs])
    return b


class Prepared(object):
    """stands for reading files: hands out prepared corpora and banks"""

    def __init__(self, things):
        self.things = things
        self.old = ParallelGraphCorpus.__dict__["read"], GraphBank.__dict__["load"]

    def __enter__(self):
        things = self.things

        def read(corpus, inf, *args, **kwargs):
            corpus.extend(things[inf])

        def load(bank):
            bank._id2graph = things[bank._file_path]._id2graph
        ParallelGraphCorpus.read, GraphBank.load = read, load

    def __exit__(self, *args):
        ParallelGraphCorpus.read, GraphBank.load = self.old


def near(a, b):
    return a is not None and abs(a - b) <= 1e-9


def pct(a, b):
    return 100.0 * a / b if b else 0.0


def judge(x, table, rows, msg):
    """rows: the expected counts; percentages: (name, part, whole)"""
    counts = rows[0][0].keys() if rows else []
    for c in table.values():
        x.prove(len(c) == len(rows), msg + ": one value per row")
    for i, (row, ratios) in enumerate(rows):
        for k in row:
            x.prove(table[k][i] == row[k], msg + ": " + k)
        for k, a, b, f in ratios:
            x.prove(near(table[k][i], f * row[a] / float(row[b]) if row[b] else 0), msg + ": " + k)
            if f == 100:
                x.prove(-1e-9 <= table[k][i] <= 100 + 1e-9, msg + ": percentage between 0 and 100")
    tot = {}
    for k in counts:
        if type(rows[0][0][k]) is int:
            tot[k] = sum([r[0][k] for r in rows])
            x.prove(table[k].overall == tot[k], msg + ": the overall count is the sum of the rows")
    if rows:
        for k, a, b, f in rows[0][1]:
            if tot[b]:
                x.prove(near(table[k].overall, f * tot[a] / float(tot[b])), msg + ": overall " + k)
            else:
                x.prove(table[k].overall is None, msg + ": nothing to report without data")
    # the banks of a corpus come in no particular order
    x.observe(sorted(zip(*table.values())))


GB_RATIOS = [("PGA", "CGA", "CG", 100), ("PGFP", "CGFP", "CG", 100), ("PGUR", "CGUR", "CG", 100),
             ("PGSA", "CGSA", "CGA", 100), ("PGMA", "CGMA", "CGA", 100), ("PNA", "CNA", "CN", 100),
             ("ATG", "CT", "CG", 1), ("ANG", "CN", "CG", 1)]
PGC_RATIOS = [("PGPFU", "CGPFU", "CGP", 100), ("PGPFP", "CGPFP", "CGP", 100), ("PGPUR", "CGPUR", "CGP", 100)]
PGC_RATIOS += [("P" + r, "C" + r, "CNP", 100) for n, r in RELS]


def gb_rows(x, banks, table, marks, opts):
    """banks in the order of the table; marks: what the pairs counted say"""
    by_name = dict([(b.get_file_path().split("/")[-1], b) for b in banks])
    x.prove(sorted(table["BANK"]) == sorted(by_name), "every graph bank once")
    rows = []
    for name in table["BANK"]:
        row = dict.fromkeys("CG CGA CGU CGSA CGMA CGUR CGFP CT CN CNA CNU".split(), 0)
        row["BANK"] = name
        for gr in by_name[name]:
            times, unrooted, nodes = marks.get(gr.id, (0, False, []))
            if gr.failed and not opts["with_failed_parses"]:
                continue
            if not times and not opts["with_unaligned_graphs"]:
                continue
            row["CG"] += 1
            row["CGA" if times else "CGU"] += 1
            if times:
                row["CGSA" if times == 1 else "CGMA"] += 1
            row["CGFP"] += gr.failed
            row["CGUR"] += unrooted
            row["CT"] += len([t for t in gr.tokens if opts["with_punc"] or t != "."])
            for n in gr:
                t = gr.node[n]["tokens"]
                if (t == ["."] and not opts["with_punc"]) or (not t and not opts["with_empty_nodes"]):
                    continue
                row["CN"] += 1
                row["CNA" if n in nodes else "CNU"] += 1
        rows.append((row, GB_RATIOS))
    return rows


def pair_counts(x, row, marks, pairs, opts):
    for gp in pairs:
        s, t = gp.get_graphs()
        failed = s.failed or t.failed
        rooted = gp.get_align(Pair("r", "r")) is not None
        if (failed and not opts["with_failed_parses"]) or (not rooted and not opts["with_unaligned_roots"]):
            continue
        row["CGP"] += 1
        row["CGPFP"] += failed
        row["CGPUR"] += not rooted
        row["CGPFU"] += not failed and rooted
        nodes = [[], []]
        for p, rel in gp.alignments():
            toks = s.node[p.source]["tokens"], t.node[p.target]["tokens"]
            if ([] in toks and not opts["with_empty_nodes"]) or (["."] in toks and not opts["with_punc"]):
                continue
            row["CNP"] += 1
            row["C" + dict(RELS)[rel]] += 1
            nodes[0].append(p.source)
            nodes[1].append(p.target)
        for gr, ns in ((s, nodes[0]), (t, nodes[1])):
            times, un, old = marks.get(gr.id, (0, False, []))
            marks[gr.id] = times + 1, un or not rooted, old + ns


def options(x, names):
    out = dict.fromkeys("with_empty_nodes with_failed_parses with_punc with_unaligned_roots with_unaligned_graphs".split(), False)
    for n in names:
        out[n] = x.flag(n)
    return out


def stats(x, files, opts):
    """files: list of lists of graph pairs"""
    with Prepared(dict([("dir/file%d.pgc" % i, f) for i, f in enumerate(files)])):
        pgc, gb = m.pgc_stats(["dir/file%d.pgc" % i for i in range(len(files))], **opts)
    rows, grows = [], []
    first = 0
    for i, f in enumerate(files):
        row = dict.fromkeys("CGP CGPFU CGPFP CGPUR CNP CEQ CRE CGEN CSPEC CINT".split(), 0)
        row["CORPUS"] = "file%d.pgc" % i
        marks = {}
        pair_counts(x, row, marks, f, opts)
        rows.append((row, PGC_RATIOS))
        banks = []
        for gp in f:
            for b in gp.get_banks():
                if b not in banks:
                    banks.append(b)

        class Part(dict):
            pass
        part = {"BANK": gb["BANK"][first:first + len(banks)]}
        grows += gb_rows(x, banks, part, marks, opts)
        first += len(banks)
    judge(x, pgc, rows, "corpora")
    judge(x, gb, grows, "graph banks")


def graphs(x, n, k, pairs, names):
    """graphs and pairs"""
    opts = options(x, names)
    ss = [make("s%d" % i) for i in range(n)]
    ts = [make("t%d" % i, ["x", "y"]) for i in range(k)]
    if "with_failed_parses" in names:
        for gr in ss + ts:
            gr.failed = x.flag(gr.id + " failed")
    sb, tb = bank("/nonexistent/s.xml", ss), bank("/nonexistent/t.xml", ts)
    todo = []
    for i, j in pairs:
        if i and not x.flag("pair %d-%d" % (i, j)):
            continue
        gp = graph_pair(graphs=Pair(ss[i], ts[j]), banks=Pair(sb, tb))
        if x.flag("root %d-%d" % (i, j)):
            gp.add_align(Pair("r", "r"), "equals")
        todo.append(gp)
    stats(x, [todo], opts)


def nodes(x, n):
    """nodes of one pair"""
    opts = options(x, ["with_empty_nodes", "with_punc"])
    s, t = make("s"), make("t")
    gp = graph_pair(graphs=Pair(s, t), banks=Pair(bank("/nonexistent/s.xml", [s]), bank("/nonexistent/t.xml", [t])))
    gp.add_align(Pair("r", "r"), "equals")
    for i in range(n):
        for gr in (s, t):
            gr.add_node(str(i), "x", x.pick("%s%d" % (gr.id, i), [[], ["."], ["w", "."]]))
            gr.add_edge("r", str(i))
        r = x.pick("relation %d" % i, [None] + [r for r, c in (RELS if n == 1 else RELS[1:3])])
        if r:
            gp.add_align(Pair(str(i), str(i)), r)
    stats(x, [[gp]], opts)


def two(x):
    """two corpora, with their own graph banks, and none"""
    files = []
    for c in range(x.choice("corpora", 0, 2)):
        n = x.choice("pairs of corpus %d" % c, 0, 2)
        ss, ts = [make("s%d" % i) for i in range(2)], [make("t%d" % i) for i in range(2)]
        sb = bank("/nonexistent/s%d.xml" % c, ss)
        tb = bank("/nonexistent/t%d.xml" % c, ts)
        pairs = []
        for i in range(n):
            gp = graph_pair(graphs=Pair(ss[i], ts[i]), banks=Pair(sb, tb))
            if x.flag("corpus %d root %d" % (c, i)):
                gp.add_align(Pair("r", "r"), RELS[c + i][0])
            pairs.append(gp)
        files.append(pairs)
    stats(x, files, options(x, ["with_unaligned_roots", "with_unaligned_graphs"]))


def banks(x, n):
    """statistics of graph banks alone"""
    opts = options(x, ["with_empty_nodes", "with_failed_parses", "with_punc"])
    bs = []
    for c in range(2):
        graphs = []
        for i in range(n if c else 1):
            gr = make("g%d" % i)
            gr.failed = x.flag("bank %d graph %d failed" % (c, i))
            gr.add_node("a", "x", x.pick("bank %d graph %d" % (c, i), [[], ["."], ["w"]]))
            graphs.append(gr)
        bs.append(bank("/nonexistent/b%d.xml" % c, graphs))
    with Prepared(dict([(b.get_file_path(), b) for b in bs])):
        table = g.gb_stats([b.get_file_path() for b in bs], "graphml", **dict(
            [(k, opts[k]) for k in opts if "unaligned" not in k]))
    opts["with_unaligned_graphs"] = True
    x.prove(list(table["BANK"]) == ["b0.xml", "b1.xml"], "one row per bank in the order given")
    rows = []
    for b in bs:
        rows += gb_rows(x, [b], {"BANK": [b.get_file_path().split("/")[-1]]}, {}, opts)
    judge(x, table, rows, "graph banks")


def jobs(tier):
    allopts = ["with_failed_parses", "with_unaligned_roots", "with_unaligned_graphs"]
    out = {"graphs": (graphs, dict(n=1, k=1, pairs=[(0, 0)], names=allopts)),
           "graphs-2-1": (graphs, dict(n=2, k=1, pairs=[(0, 0), (1, 0)], names=allopts)),
           "graphs-repeat": (graphs, dict(n=2, k=1, pairs=[(0, 0), (1, 0), (0, 0)], names=allopts[1:])),
           "nodes-1": (nodes, dict(n=1)), "nodes-2": (nodes, dict(n=2)),
           "two": (two, {}), "banks-1": (banks, dict(n=1)), "banks-2": (banks, dict(n=2))}
    if tier == "thorough":
        out["nodes-3"] = (nodes, dict(n=3))
        out["graphs-2-2"] = (graphs, dict(n=2, k=2, pairs=[(0, 0), (1, 1), (1, 0)], names=allopts))
    return out
