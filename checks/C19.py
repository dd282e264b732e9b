# -*- coding: utf-8 -*-
"""C19  graph corpora created from parallel text"""
import os
import warnings
from helpers import *
from scratch import *
from corpora import triples
from daeso.pair import Pair
from daeso.pgc.creation import pgc_from_ptc
from daeso.relations import RELATIONS

warnings.simplefilter("ignore")

META = {
    "first": ["links-1", "limits"],
    "bounds": {"quick": "every list of up to 3 links between 2 source and 2 target sentences (possibly the same) and of other kinds, with default and other kinds of elements; one link between sentences of up to 3 tokens in every combination of 5 texts, with every limit on the number of tokens up to 3 and on the difference up to 4",
               "thorough": "in addition lists of 4 links, and texts of 8 kinds"},
    "outside": "graph banks in the Alpino format; more links; sentences without a graph",
    "assumptions": ["links are by id, as documented, and every sentence has a graph with its id"],
}


def bank(ids):
    return ("<graphml><key id='k' for='all' attr.name='tokens'/><key id='l' for='node' attr.name='label'/>" +
            "".join(["<graph id='%s'><data key='k'>tok %s</data><node id='n1'><data key='l'>top</data><data key='k'>tok</data></node></graph>" % (i, i) for i in ids]) +
            "</graphml>")


def document(tag, other, texts):
    return "<d>" + "".join(["<%s id='x%d'>%s</%s>" % (tag, i, t, tag) for i, t in enumerate(texts)]) + \
        "<%s id='x0'>n</%s></d>" % (other, other)


def ptc(links):
    return ("<hitaext><from><filename>from.xml</filename></from><to><filename>to.xml</filename></to><alignment method='id'>" +
            "".join(["<link from_tag='%s' from_id='x%d' to_tag='%s' to_id='x%d'/>" % l for l in links]) +
            "</alignment></hitaext>")


def create(x, links, texts, tags, **kw):
    files = {"dir/c.ptc": ptc(links), "dir/from.xml": document(tags[0], "p", texts[0]),
             "dir/to.xml": document(tags[1], "p", texts[1]),
             "gb/s.xml": bank(["x0", "x1"]), "gb/t.xml": bank(["x1", "x0"])}
    with Scratch(files) as s:
        if x.flag("absolute"):
            c = pgc_from_ptc(os.path.join(s.dir, "dir/c.ptc"), "gb/s.xml", "gb/t.xml",
                             graph_formats=Pair("graphml", "graphml"), **kw)
        else:
            c = pgc_from_ptc("dir/c.ptc", "gb/s.xml", "gb/t.xml", graph_formats=Pair("graphml", "graphml"), **kw)
        paths = [[os.path.realpath(b.get_file_path()) for b in gp.get_banks()] for gp in c]
        want = [os.path.realpath("gb/s.xml"), os.path.realpath("gb/t.xml")]
    x.prove(all([p == want for p in paths]), "the graphs come from the given graph banks")
    return c


def judge(x, c, want):
    got = []
    for gp in c:
        s, t = gp.get_graphs()
        got.append((s.id, t.id))
        x.prove(s.tokens == ["tok", s.id] and t.tokens == ["tok", t.id], "the graphs of the sentences")
        x.prove(triples(gp) == [], "no alignments yet")
        banks = gp.get_banks()
        x.prove(banks.source.get_graph(s.id) is s and banks.target.get_graph(t.id) is t,
                "every graph is that of its bank")
    x.prove(got == want, "one graph pair per link of the kind requested, in order")
    x.observe(got)


def links(x, n):
    default = x.flag("default")
    tags = ("s", "s") if default else ("v", "w")
    kw = {} if default else {"focus_tags": Pair("v", "w")}
    relations = None
    if x.flag("relations given"):
        kw["relations"] = relations = ["r1", "r2"]
    ls = []
    for i in range(n):
        l = x.pick("link%d" % i, [None, (tags[0], 0, tags[1], 0), (tags[0], 1, tags[1], 0), (tags[0], 0, tags[1], 1),
                                  ("p", 0, tags[1], 1), (tags[0], 1, "p", 0)][:6 if n < 3 else 4])
        if l:
            ls.append(l)
    if n == 3:
        ls.insert(1, ("p", 0, "p", 0))
    c = create(x, ls, [["one", "two"], ["een", "twee"]], tags, **kw)
    x.prove(sorted(c.get_relations()) == sorted(relations or RELATIONS), "the relations of the corpus")
    judge(x, c, [("x%d" % l[1], "x%d" % l[3]) for l in ls if (l[0], l[2]) == tags])


TEXTS = ["", "a", "A b", "b  c\n C", "b <i>b</i> B c", " b c d", "<i>a</i>b c", "a b c d"]


def limits(x, texts):
    a, b = x.pick("source", texts), x.pick("target", texts)
    kw, most, least = {}, 99999, 0
    if x.flag("most given"):
        kw["max_token_len"] = most = x.choice("most", 0, 3)
    if x.flag("least given"):
        kw["min_token_diff"] = least = x.choice("least", 0, 4)
    c = create(x, [("s", 0, "s", 0), ("s", 1, "s", 1)], [[a, "e e"], [b, "e f"]], ("s", "s"), **kw)

    def toks(t):
        # white space around pieces of text does not count (C16)
        out = ""
        for piece in t.replace("</i>", "<i>").split("<i>"):
            out += piece.strip()
        return out.lower().split()
    want = []
    for i, s, t in ((0, toks(a), toks(b)), (1, ["e", "e"], ["e", "f"])):
        diff = len([w for w in s if w not in t]) + len([w for w in t if w not in s])
        if len(s) <= most and len(t) <= most and diff >= least:
            want.append(("x%d" % i, "x%d" % i))
    judge(x, c, want)


def jobs(tier):
    deep = tier == "thorough"
    out = {"limits": (limits, dict(texts=TEXTS[:8 if deep else 5]))}
    for n in range(1, 5 if deep else 4):
        out["links-%d" % n] = (links, dict(n=n))
    return out
