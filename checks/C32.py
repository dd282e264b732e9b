# -*- coding: utf-8 -*-
"""C32  the command line tools do what their options say"""
import glob
import os
import pickle
import warnings
from helpers import *
from scratch import *
from daeso.graph.daesograph import DaesoGraph
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.relations import RELATIONS

warnings.simplefilter("ignore")

META = {
    "first": ["extract-phrases", "pgc-diff"],
    "bounds": {"quick": "every combination of the options of every tool on a few small files whose output differs for every option; phrases of every choice of 3 alignments between 4 nodes with texts of 4 kinds",
               "thorough": "the same, and phrases of two corpora"},
    "outside": "other files (what the library makes of them is the subject of the other properties); messages about wrong use",
    "assumptions": ["what a tool writes is compared with what the library function gives when it is called with the values of the options",
                    "failed parses and empty nodes, which only Alpino graphs have, are graphs and nodes of certain ids"],
}

XML = '<?xml version="1.0" encoding="utf-8"?>\n'


def graph(gid, nodes, edges=(), root=None):
    """nodes: (id, label, tokens or None)"""
    out = "<graph id='%s'%s><data key='k'>%s</data>" % (gid, " root='%s'" % root if root else "",
                                                       " ".join([t for n, l, t in nodes if t]))
    for n, l, t in nodes:
        out += "<node id='%s'><data key='l'>%s</data>%s<data key='b'>%s</data><data key='e'>9</data></node>" % (
            n, l, "<data key='k'>%s</data>" % (t or ""), n)
    for a, b in edges:
        out += "<edge source='%s' target='%s'/>" % (a, b)
    return out + "</graph>"


def bank(*graphs):
    return (XML + "<graphml><key id='k' for='all' attr.name='tokens'/><key id='l' for='node' attr.name='label'/>"
            "<key id='b' for='node' attr.name='begin'/><key id='e' for='node' attr.name='end'/>" +
            "".join(graphs) + "</graphml>")


def corpus(pairs, relations=("equals", "restates", "odd"), banks=("s.xml", "t.xml"), meta="me"):
    """pairs: (graph, graph, comment, [(node, node, relation)])"""
    out = XML + "<parallel_graph_corpus><corpus_meta_data><annotator>%s</annotator></corpus_meta_data><graphbanks>" % meta
    out += "".join(["<file id='%d' format='graphml'>%s</file>" % (i, b) for i, b in enumerate(banks)])
    out += "</graphbanks><node_relations>" + "".join(["<relation>%s</relation>" % r for r in relations]) + "</node_relations><aligned_graphs>"
    for g, h, c, al in pairs:
        out += "<graph_pair from_bank_id='0' from_graph_id='%s' to_bank_id='1' to_graph_id='%s'>" % (g, h)
        if c:
            out += "<meta_data><comment>%s</comment></meta_data>" % c
        out += "<aligned_nodes>"
        for s, t, r in al:
            out += "<node_pair from_node_id='%s' to_node_id='%s' relation='%s'/>" % (s, t, r)
        out += "</aligned_nodes></graph_pair>"
    return out + "</aligned_graphs></parallel_graph_corpus>"


TREE = [("0", "top", "a b ."), ("1", "n", "a"), ("2", "n", "b"), ("3", "p", "."), ("4", "e", "c")]
EDGES = [("0", "1"), ("0", "2"), ("0", "3"), ("0", "4")]
FILES = {
    "s.xml": bank(graph("g1", TREE, EDGES, "0"), graph("g2", TREE, EDGES, "0"), graph("f1", TREE, EDGES, "0"), graph("alone", TREE, EDGES, "0")),
    "t.xml": bank(graph("g1", TREE, EDGES, "0"), graph("g2", TREE, EDGES, "0"), graph("h1", TREE, EDGES, "0")),
    "a.pgc": corpus([("g1", "g1", "so", [("0", "0", "equals"), ("1", "1", "equals"), ("3", "3", "equals"), ("4", "4", "restates")]),
                     ("g2", "g2", None, [("1", "2", "restates"), ("2", "1", "equals")]),
                     ("f1", "h1", None, [("0", "0", "intersects"), ("2", "2", "specifies")])], RELATIONS),
    "b.pgc": corpus([("g1", "g1", None, [("0", "0", "equals"), ("1", "1", "restates"), ("3", "4", "equals")]),
                     ("g2", "g2", "hm", [("1", "2", "restates"), ("0", "0", "equals")]),
                     ("f1", "h1", None, [("0", "1", "intersects"), ("2", "2", "specifies")])], RELATIONS),
    "c.pgc": corpus([("g1", "g1", None, []), ("g2", "g2", None, [("1", "2", "restates")]), ("f1", "h1", None, [("2", "2", "specifies")])], RELATIONS),
}


class FailedParses(object):

    def __enter__(self):
        self.old = DaesoGraph.__dict__["is_failed_parse"], DaesoGraph.__dict__["node_is_empty"]
        DaesoGraph.is_failed_parse = lambda g: g.id.startswith("f")
        DaesoGraph.node_is_empty = lambda g, n: n == "4"

    def __exit__(self, *args):
        DaesoGraph.is_failed_parse, DaesoGraph.node_is_empty = self.old


def printed(fn):
    with Output() as out:
        fn()
    return out.text


OUTPUTS = {}


def same_as_library(x, name, tool, argv, library, key):
    """the tool writes what the library function does with these options"""
    with Scratch(FILES):
        with FailedParses():
            code, out = script(tool, *argv)
            x.prove(code == 0, "no error")
            want = printed(library)
    if name == "pgc-stats":
        # banks of a corpus are in no particular order
        out, want = "\n".join(sorted(out.split("\n"))), "\n".join(sorted(want.split("\n")))
    x.prove(out == want, "output for the options given")
    if "SELFTEST" in os.environ:
        # options that change nothing would prove nothing
        x.prove(OUTPUTS.setdefault((name, want), key) == key, "harness: output differs for every combination of options")
    x.prove(out != "", "some output")
    x.observe(len(out))


def options(x, flags):
    """flags: (name, short, long) -> chosen names, arguments"""
    on, argv = {}, []
    for name, short, long in flags:
        on[name] = x.flag(name)
        if on[name]:
            argv.append(short if x.symbolic and len(argv) % 2 else long)
    return on, argv


def pgc_stats_tool(x):
    from daeso.pgc.pgcstats import pgc_stats
    pattern, names = x.pick("pattern", [("[ab].pgc", ["a.pgc", "b.pgc"]), ("c.pgc", ["c.pgc"])])
    if x.flag("all"):
        argv = [x.pick("spelled", ["-a", "--with-all"])]
        on = dict.fromkeys(["empty", "failed", "punc", "roots", "graphs"], True)
    else:
        on, argv = options(x, [("empty", "-e", "--with-empty-nodes"), ("failed", "-f", "--with-failed-parses"),
                               ("punc", "-p", "--with-punc-nodes"), ("roots", "-r", "--with-unaligned-roots"),
                               ("graphs", "-u", "--with_unaligned-graphs")])
    legenda = x.flag("legenda")
    argv += ["-l"] if legenda else []

    def library():
        p, g = pgc_stats(glob.glob(pattern), with_empty_nodes=on["empty"], with_failed_parses=on["failed"],
                         with_punc=on["punc"], with_unaligned_roots=on["roots"], with_unaligned_graphs=on["graphs"])
        p.write(legenda=legenda)
        g.write(legenda=legenda)
    same_as_library(x, "pgc-stats", "pgc_stats.py", argv + [pattern], library, (pattern, legenda, sorted(on.items())))


def gb_stats_tool(x):
    from daeso.gb.gbstats import gb_stats
    pattern, names = x.pick("pattern", [("[st].xml", ["s.xml", "t.xml"]), ("t*.xml", ["t.xml"]), ("s.xml", ["s.xml"])])
    if x.flag("all"):
        argv = [x.pick("spelled", ["-a", "--with-all"])]
        on = dict.fromkeys(["empty", "failed", "punc"], True)
    else:
        on, argv = options(x, [("empty", "-e", "--with-empty-nodes"), ("failed", "-f", "--with-failed-parses"),
                               ("punc", "-p", "--with-punc-nodes")])
    legenda = x.flag("legenda")
    argv += ["-l"] if legenda else []

    def library():
        gb_stats(glob.glob(pattern), "graphml", with_empty_nodes=on["empty"], with_failed_parses=on["failed"],
                 with_punc=on["punc"]).write(legenda=legenda)
    failing = "s.xml" in names
    same_as_library(x, "gb-stats", "gb_stats.py", ["--format", "graphml"] + argv + [pattern], library,
                    (pattern, legenda, on["empty"], on["failed"] and failing, on["punc"]))


def no_files(x):
    tool = x.pick("tool", ["pgc_stats.py", "gb_stats.py"])
    with Scratch(FILES):
        code, out = script(tool, "none*")
    x.prove(code != 0 and not out, "no matching files")


def pgc_diff_tool(x):
    from daeso.pgc.diff import pgc_diff
    from daeso.pgc.evaluate import AlignEval
    a, b = x.pick("corpora", [("a.pgc", "b.pgc"), ("b.pgc", "a.pgc")])
    on, argv = options(x, [("comments", "-c", "--with_comments"), ("ident", "-i", "--with_ident"), ("evaluate", "-e", "--evaluate")])
    kw = dict(corpus_name1=a, corpus_name2=b, annot1="First annotator", annot2="Second annotator",
              show_comments=on["comments"], show_ident=on["ident"], relations=None)
    if x.flag("first"):
        argv += ["-1", "Ann"]
        kw["annot1"] = "Ann"
    if x.flag("second"):
        argv += ["--second_annotator", "Bob"]
        kw["annot2"] = "Bob"
    kw["relations"] = x.pick("relations", [None, ["equals"], ["equals", "restates"]])

    def library():
        c, d = ParallelGraphCorpus(inf=a), ParallelGraphCorpus(inf=b)
        pgc_diff(c, d, **kw)
        if on["evaluate"]:
            e = AlignEval()
            e.add(c, d)
            e.run_eval()
            e.write()
    argv = argv + [a, b] + (["-r"] + kw["relations"] if kw["relations"] else [])
    same_as_library(x, "pgc-diff", "pgc_diff.py", argv, library, (a, sorted(kw.items()), on["evaluate"]))


def pgc_agreement_tool(x):
    import daeso.pgc.agreement as m
    names = x.pick("corpora", [["a.pgc", "b.pgc"], ["c.pgc", "a.pgc"], ["a.pgc", "b.pgc", "c.pgc"]])
    annotators = None
    argv = names[:]
    if x.flag("annotators"):
        annotators = ["X", "Y", "Z"][:len(names)]
        for a in annotators:
            argv += [x.pick("spelled", ["-a", "--annotator"]), a]
    words = x.flag("words only")
    argv += ["-w"] if words else []
    dump = x.flag("pickle")
    argv += ["-p", "out.pickle"] if dump else []
    dumped = []

    def recorder(obj, f, *args):
        dumped.append((f.name, repr(obj)))
        f.close()

    def library():
        m.run_eval(names, annotators, words_only=words)
    old = pickle.dump
    pickle.dump = recorder
    try:
        same_as_library(x, "pgc-agreement", "pgc_agreement.py", argv, library, (names, annotators, words))
    finally:
        pickle.dump = old
    with Scratch(FILES):
        with Output():
            want = repr(m.run_eval(names, annotators, words_only=words)[1])
    x.prove([f for f, o in dumped] == (["out.pickle"] if dump else []), "pickled on request")
    x.prove(all([want in o for f, o in dumped]), "the tables are pickled")


PHRASES = ["a", "b c", u"d\u00eb", ""]


def extract_phrases(x, n):
    ids = ["0", "1", "2", "3"]
    nodes = lambda side: [(i, "l", (p + side if p else None)) for i, p in zip(ids, [u"a", u"b c", u"d\u00eb", u""])]
    text = lambda side, i: dict([(a, (c or u"").strip()) for a, b, c in nodes(side)])[i]
    files = {"s.xml": bank(graph("g1", nodes("s")), graph("g2", nodes("S"))).encode("utf-8"),
             "d/t.xml": bank(graph("h1", nodes("t")), graph("h2", nodes("T"))).encode("utf-8")}
    lines, names = [], []
    verbose = x.flag("verbose")
    option, delimiter = x.pick("delimiter", [(None, None), ("-d", "|"), ("--delimiter", " :: ")])
    sep = delimiter or "\t"
    for c in range(n):
        pairs = []
        for g, h, a, b in [("g1", "h1", "s", "t"), ("g2", "h2", "S", "T")]:
            al = []
            free = ids[:]
            for i in range(x.choice("c%d-%s" % (c, g), 0, 2 if n == 1 and g == "g1" else 1)):
                s = ids[i + 1 if c else i]
                t = x.pick("c%d-%s-%d" % (c, g, i), free)
                free.remove(t)
                r = ["equals", "odd"][i]
                al.append((s, t, r))
            pairs.append((g, h, None, al))
            mine = []
            for s, t, r in al:
                cols = [text(a, s), r, text(b, t)]
                if verbose:
                    cols = ["@s.xml", "@d/t.xml", g, h, s, t] + cols
                mine.append(sep.join(cols).encode("utf-8"))
            lines += sorted(mine)
        names.append("c%d.pgc" % c)
        files[names[-1]] = corpus(pairs, banks=("s.xml", "d/t.xml"))
    argv = names[:]
    if delimiter:
        argv += [option, delimiter]
    argv += ["-V"] if verbose else []
    with Scratch(files):
        here = os.getcwd()
        code, out = script("pgc_extract_phrases.py", *argv)
        x.prove(code == 0, "no error")
        got = []
        for line in out.split("\n"):
            for p in ("s.xml", "d/t.xml"):
                # a path to the file, however it is written
                cols = line.split(sep)
                cols = ["@" + p if verbose and i < 2 and os.path.realpath(col) == os.path.realpath(p) else col
                        for i, col in enumerate(cols)]
                line = sep.join(cols)
            got.append(line)
    x.prove(got[-1] == "", "complete lines")
    x.prove(sorted(got[:-1]) == sorted(lines), "one line per alignment with phrases and relation")
    x.observe(len(lines))


def hitaext(frm, to, links):
    return (XML + "<hitaext><from><filename>%s</filename></from><to><filename>%s</filename></to><alignment method='id'>" % (frm, to) +
            "".join(["<link from_tag='%s' from_id='%s' to_tag='%s' to_id='%s'/>" % l for l in links]) + "</alignment></hitaext>")


def doc(side):
    return (XML + u"<doc>" + u"".join([u"<p id='%sp%d'><s id='%s%d'>caf\u00e9 %d%s</s></p>" % (side, i, side, i, i, " w" * i)
                                       for i in range(1, 4)]) + u"</doc>").encode("utf-8")


def s_links(*pairs):
    return [("s", "f%d" % a, "s", "t%d" % b) for a, b in pairs]


PTC = {
    "from.xml": doc("f"), "to.xml": doc("t"),
    "1.ptc": hitaext("from.xml", "to.xml", s_links((1, 1), (2, 2), (3, 3)) + [("p", "fp1", "p", "tp1")]),
    "2.ptc": hitaext("from.xml", "to.xml", s_links((1, 2), (2, 2)) + [("p", "fp1", "p", "tp2")]),
    "3.ptc": hitaext("from.xml", "to.xml", s_links((1, 1), (3, 1), (3, 2)) + [("p", "fp1", "s", "t1")]),
}


def ptc_diff_tool(x):
    from daeso.ptc.diff import print_diff
    a = x.pick("true", ["1.ptc", "2.ptc", "3.ptc"])
    b = x.pick("pred", ["1.ptc", "2.ptc", "3.ptc"])
    argv, tag, enc = [a, b], "s", "utf-8"
    if x.flag("tag"):
        tag = x.pick("its", ["p", "s"])
        argv = [x.pick("spelled", ["-t", "--tag"]), tag] + argv
    if x.flag("encoding"):
        enc = x.pick("coding", ["latin-1", "utf-8"])
        argv += ["-e", enc]
    with Scratch(PTC):
        code, out = script("ptc_diff.py", *argv)
        x.prove(code == 0, "no error")
        want = printed(lambda: print_diff(a, b, tag, enc))
    x.prove(out == want, "output for the options given")
    x.prove(a == b or not (tag == "s") or u"caf\u00e9".encode(enc) in out, "in the encoding asked for")
    x.observe(len(out))


def ptc_eval_tool(x):
    from daeso.ptc.evaluate import eval_alignment
    names = ["1.ptc", "2.ptc", "3.ptc"]
    n = x.choice("n", 1, 2)
    true = [x.pick("true%d" % i, names) for i in range(n)]
    pred = [x.pick("pred%d" % i, names) for i in range(n)]
    tag = x.pick("tag", [None, "s", "p"])
    t, p = x.pick("spelled", [("-t", "-p"), ("--true_corpora", "--pred_corpora")]) if n == 1 else ("-t", "-p")
    argv = [t] + true + [p] + pred
    argv += ["--tag", tag] if tag else []
    with Scratch(PTC):
        code, out = script("ptc_eval.py", *argv)
        x.prove(code == 0, "no error")
        want = printed(lambda: eval_alignment(zip(true, pred), tag or "s"))
    x.prove(out == want, "output for the options given")
    x.prove(out != "", "some output")
    x.observe(len(out))


def pgc_from_ptc_tool(x):
    from daeso.pgc.creation import pgc_from_ptc
    links = s_links((1, 1), (3, 1), (1, 3)) + [("p", "fp1", "p", "tp1"), ("p", "fp2", "s", "t3"), ("s", "f2", "p", "tp3")]
    files = dict(PTC)
    files["d/c.ptc"] = hitaext("../from.xml", "../to.xml", links)
    files["e.ptc"] = hitaext("from.xml", "to.xml", links[::-1])
    tags = ["1", "2", "3", "p1", "p2", "p3"]
    # (graph banks of either side, to tell them apart)
    for name, side in [("s1.xml", "f"), ("t1.xml", "t"), ("s2.xml", "f"), ("t2.xml", "t")]:
        files[name] = bank(*[graph(side + i, [("0", "top", "x")]) for i in tags])
    corpora = x.pick("corpora", [["d/c.ptc"], ["e.ptc"], ["d/c.ptc", "e.ptc"]])
    sources, targets = ["s1.xml", "s2.xml"][:len(corpora)], ["t1.xml", "t2.xml"][:len(corpora)]
    argv = ["-p"] + corpora + ["-s"] + sources + ["-t"] + targets
    # the parser of the default format is not there: the names of formats are what counts
    formats = Pair("alpino", "alpino")
    for side in ("source", "target"):
        f = x.pick(side + " format", [None, "graphml"])
        if f:
            argv += ["--%s-format" % side, f]
            setattr(formats, side, f)
    source_tag, target_tag, relations, most, least = "s", "s", RELATIONS, 99999, 0
    if x.flag("source tag"):
        source_tag = "p"
        argv += ["--source-tag", "p"]
    if x.flag("target tag"):
        target_tag = "p"
        argv += ["--target-tag", "p"]
    if x.flag("relations"):
        relations = ["same", "odd"]
        argv += ["--relations"] + relations
    if x.flag("most"):
        most = 3
        argv += ["--max-token-len", "3"]
    if x.flag("least"):
        least = 1
        argv += ["--min-token-diff", "1"]
    with Scratch(files), AlpinoIsGraphml():
        code, out = script("pgc_from_ptc.py", *argv)
        x.prove(code == 0, "no error")
        x.prove(sorted([f for f in os.listdir(".") if f.endswith(".pgc")]) ==
                [os.path.basename(c)[:-4] + ".pgc" for c in corpora], "one corpus per text corpus, in the current directory")
        for c, s, t in zip(corpora, sources, targets):
            with Output():
                want = pgc_from_ptc(c, s, t, focus_tags=Pair(source_tag, target_tag), graph_formats=formats,
                                    relations=relations, min_token_diff=least, max_token_len=most)
            got = ParallelGraphCorpus(inf=os.path.basename(c)[:-4] + ".pgc")
            x.prove(sorted(got.get_relations()) == sorted(relations), "relations")
            x.prove([ids(gp) for gp in got] == [ids(gp) for gp in want], "graph pairs for the options given")
            x.prove(all([os.path.basename(gp.get_banks().source.get_file_path()) == s and
                         os.path.basename(gp.get_banks().target.get_file_path()) == t for gp in got]), "graph banks")
            x.prove(all([Pair(*[b.get_format() for b in gp.get_banks()]) == formats for gp in got]), "formats")
            x.observe(len(got))


class AlpinoIsGraphml(object):

    def __enter__(self):
        import daeso.gb.register as r
        self.keep = r.alpino
        r.alpino = r.graphml

    def __exit__(self, *args):
        import daeso.gb.register as r
        r.alpino = self.keep


def ids(gp):
    return tuple([g.id for g in gp.get_graphs()])


def from_ptc_counts(x):
    n, s, t = x.choice("corpora", 0, 2), x.choice("sources", 0, 2), x.choice("targets", 0, 2)
    x.assume(n != s or n != t)
    argv = []
    for o, k in (("-p", n), ("-s", s), ("-t", t)):
        if k:
            argv += [o] + ["x.%d" % i for i in range(k)]
    with Scratch():
        code, out = script("pgc_from_ptc.py", *argv)
        x.prove(code != 0 and not os.listdir("."), "as many graph banks as text corpora")


def jobs(tier):
    deep = tier == "thorough"
    js = {"pgc-stats": (pgc_stats_tool, {}), "gb-stats": (gb_stats_tool, {}), "no-files": (no_files, {}),
          "pgc-diff": (pgc_diff_tool, {}), "pgc-agreement": (pgc_agreement_tool, {}),
          "extract-phrases": (extract_phrases, dict(n=1)),
          "ptc-diff": (ptc_diff_tool, {}), "ptc-eval": (ptc_eval_tool, {}), "pgc-from-ptc": (pgc_from_ptc_tool, {}),
          "from-ptc-counts": (from_ptc_counts, {})}
    if deep:
        js["extract-phrases-2"] = (extract_phrases, dict(n=2))
    return js
