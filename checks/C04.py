# -*- coding: utf-8 -*-
"""C04  writing and reading parallel graph corpora"""
import os
import shutil
import tempfile
import warnings
from StringIO import StringIO
import xml.etree.cElementTree as et
from helpers import *
from corpora import *
from xmlshim import installed
import daeso.pgc.corpus as pc

META = {
    "bounds": {"quick": "corpora of up to 2 graph pairs with up to 2 alignments in all; graph ids, node names and relations symbolic; up to 2 corpus relations; 8 kinds of meta-data on the corpus and on every pair; every sharing of 3 bank files by 4 bank objects (one file is reached in two ways); relative and absolute bank paths, pretty printing, writing to an object, a file, a file in the current directory and a file in a directory reached by a symbolic link; two corpora of a pair each, with any of 3 bank files, written, or written and read, or not, then joined (or one pair removed) and written again; up to 2 settings of the annotator with every kind of meta-data",
               "thorough": "in addition 3 pairs without alignments, 3 alignments on a pair, meta-data on two pairs"},
    "outside": "names with characters other than letters and digits in them (their escaping is left to the XML library); loading of graphs (see C05)",
    "assumptions": ["relation names do not begin or end with white space",
                    "symbolic names pass through the real XML writer and parser as labels that stand for their equality class"],
}


def mk(kind, tag):
    """kinds of meta-data"""
    if kind == 0:
        return None
    e = et.Element(tag)
    if kind == 1:
        e.text = u"some <text> & caf\xe9"
    elif kind == 2:
        e.set("key", u'"value" & more')
    elif kind == 3:
        c = et.SubElement(e, "comment", who="me")
        c.text = "hello"
        et.SubElement(c, "deeper")
    elif kind == 4:
        # names which mean something elsewhere in the document
        et.SubElement(e, "graph_pair", from_bank_id="1", to_bank_id="1", from_graph_id="1", to_graph_id="2")
        et.SubElement(e, "relation").text = "no relation"
        et.SubElement(et.SubElement(e, "graph_meta_data"), "node_pair", from_node_id="1", to_node_id="2", relation="x")
        et.SubElement(et.SubElement(e, "corpus_meta_data"), "file", id="1").text = "x"
    elif kind == 5:
        pass
    elif kind == 6:
        et.SubElement(e, "a").tail = "mixed"
        et.SubElement(e, "a")
    elif kind == 7:
        et.SubElement(e, "file").text = "f"
        et.SubElement(e, "aligned_graphs")
        et.SubElement(e, "graphbanks", format="other")
    return e


def flat(e):
    """meta-data as a value, without regard to white space at the ends of texts"""
    return (e.tag, (e.text or "").strip(), (e.tail or "").strip(), sorted(e.attrib.items()), [flat(c) for c in e])


def scratch(x):
    return os.path.realpath(tempfile.mkdtemp())


def directories():
    """-> a directory with one/two in it and a link to the latter"""
    d = scratch(None)
    os.mkdir(os.path.join(d, "one"))
    os.mkdir(os.path.join(d, "one", "two"))
    os.symlink(os.path.join(d, "one", "two"), os.path.join(d, "link"))
    return d


def there_and_back(x, corpus, how, d=None, **kw):
    """-> what is read after writing, the document"""
    with installed(x):
        if how == "object":
            f = StringIO()
            corpus.write(f, **kw)
            doc = f.getvalue()
            new = ParallelGraphCorpus()
            new.read(StringIO(doc), pc.LOAD_NONE)
            return new, doc
        cwd = os.getcwd()
        try:
            if how == "cwd":
                os.chdir(os.path.join(d, "one"))
                name = "c.pgc"
            else:
                name = os.path.join(d, {"file": "one", "link": "link"}[how], "c.pgc")
            corpus.write(name, **kw)
            f = open(name)
            doc = f.read()
            f.close()
            return ParallelGraphCorpus(inf=name, graph_loading=pc.LOAD_NONE), doc
        finally:
            os.chdir(cwd)


def same(x, new, corpus, alignments, relations, metas):
    """alignments: per pair a list of triples; metas: of the corpus, of every pair"""
    x.prove(new.__class__ is ParallelGraphCorpus and len(new) == len(corpus), "number of pairs")
    x.prove(x.And(len(new.get_relations()) == len(relations), same_seq(x, new.get_relations(), sorted(relations))),
            "relations")
    tags = ["corpus_meta_data"] + ["graph_meta_data"] * len(corpus)
    for c, kind, tag in zip([new] + list(new), metas, tags):
        m, w = c.get_meta_data(), mk(kind, tag)
        if w is None:
            if tag == "corpus_meta_data":
                x.prove(m is None, "no meta-data")
                continue
            w = et.Element(tag)
        x.prove(m is not None and flat(m) == flat(w), "meta-data")
    for p, q, al in zip(new, corpus, alignments):
        x.prove(p.__class__ is q.__class__, "class of the pairs")
        for a, b, g, h in zip(p.get_banks(), q.get_banks(), p.get_graphs(), q.get_graphs()):
            x.prove(a.get_file_path() == b.get_file_path(), "path of the graph bank")
            x.prove(a.get_format() == b.get_format(), "format of the graph bank")
            x.prove(x.Eq(g.id, h.id), "graph id")
        got = triples(p)
        x.prove(len(got) == len(al), "number of alignments")
        x.prove(x.And(*[has3(x, s, t, r, got) for s, t, r in al]) if al else True, "alignments")
        x.observe(sorted(got), p.get_source_graph().id, p.get_target_graph().id)
    seen = {}
    for p in new:
        for b in p.get_banks():
            x.prove(seen.setdefault(b.get_file_path(), b) is b, "one object for every graph bank")
    x.prove(new == corpus and corpus == new and not new != corpus, "the corpora are equal")
    return len(seen)


def content(x, sizes, nrel, pprint):
    x.canonical_tokens()
    k = len(sizes) + 1
    rels = [x.token("relation%d" % i, nrel + 1) for i in range(nrel)]
    corpus = ParallelGraphCorpus(relations=rels)
    al = []
    total = sum(sizes)
    for i, n in enumerate(sizes):
        gp = graph_pair((x.token("from%d" % i, k), x.token("to%d" % i, k)))
        al.append(align(x, gp, "p%d-" % i, n, total, [x.token("any%d" % j, 3) for j in range(n)]))
        corpus.append(gp)
    new, doc = there_and_back(x, corpus, "object", abs_path=True, pprint=pprint)
    same(x, new, corpus, al, rels, [0] * (1 + len(sizes)))
    for p, a in zip(corpus, al):
        got = triples(p)
        x.prove(len(got) == len(a) and x.fork(x.And(*[has3(x, s, t, r, got) for s, t, r in a]) if a else True),
                "writing leaves the corpus as it was")


def metas(x, n):
    kinds = [x.choice("meta%d" % i, 0, 7) for i in range(n + 1)]
    pprint = x.flag("pprint")
    twice = x.flag("twice")
    corpus = ParallelGraphCorpus(relations=["r"], meta_data=mk(kinds[0], "corpus_meta_data"))
    al = []
    for i in range(n):
        kw = {}
        if kinds[i + 1]:
            kw["meta_data"] = mk(kinds[i + 1], "graph_meta_data")
        gp = GraphMatching(BANKS, Pair(DaesoGraph("%d" % i), DaesoGraph("2")), **kw)
        gp.add_align(Pair("1", "2"), "r")
        al.append([("1", "2", "r")])
        corpus.append(gp)
    new, doc = there_and_back(x, corpus, "object", pprint=bool(pprint))
    same(x, new, corpus, al, ["r"], kinds)
    if twice:
        new2, doc2 = there_and_back(x, new, "object", pprint=False)
        same(x, new2, corpus, al, ["r"], kinds)


def banks(x, n, how):
    d = directories()
    try:
        banks_in(x, n, how, d)
    finally:
        shutil.rmtree(d)


def banks_in(x, n, how, d):
    # banks that are not there; in a directory reached in two ways; in another
    objects = [GraphBank(d + "/one/two/a", "graphml"), GraphBank(d + "/link/a", "graphml"), GraphBank(d + "/one/b", "alpino"),
               GraphBank("/nonexistent/c", "graphml")]
    abs_path = x.flag("abs_path")
    corpus = ParallelGraphCorpus(relations=[])
    for i in range(n):
        a, b = x.pick("from%d" % i, objects), x.pick("to%d" % i, objects)
        corpus.append(graph_pair((str(i), str(i + 1)), banks=Pair(a, b)))
    keep = [tuple(p.get_banks()) for p in corpus]
    new, doc = there_and_back(x, corpus, how, d, abs_path=bool(abs_path))
    k = same(x, new, corpus, [[]] * n, [], [0] * (1 + n))
    x.prove(doc.count("<file") == k, "every bank is written once")
    for p, q in zip(corpus, keep):
        x.prove(p.get_source_bank() is q[0] and p.get_target_bank() is q[1], "writing leaves the corpus as it was")


def joined(x, how):
    """corpora that were written or read before are put together and written"""
    d = "/nonexistent/d/"
    parts = []
    for i in range(2):
        corpus = ParallelGraphCorpus(relations=["r"])
        names = [x.pick("%s%d" % (k, i), ("a", "b", "c")) for k in ("from", "to")]
        corpus.append(graph_pair((str(i), str(i + 1)), banks=Pair(*[GraphBank(d + n, "graphml") for n in names])))
        if x.flag("before%d" % i):
            new, doc = there_and_back(x, corpus, "object")
            if how == "read":
                corpus = new
        parts.append(corpus)
    if how == "moved":
        # what is left of a corpus after it was written
        whole = parts[0]
        whole.extend(parts[1])
        there_and_back(x, whole, "object")
        del whole[0]
    else:
        whole = parts[0] + parts[1]
    new, doc = there_and_back(x, whole, "object")
    k = same(x, new, whole, [[]] * len(whole), ["r"], [0] * (1 + len(whole)))
    x.prove(doc.count("<file") == k, "every bank is written once")


def annotators(x, n):
    """the annotators are kept in the meta-data of the corpus"""
    kind = x.choice("meta", 0, 7)
    m = mk(kind, "corpus_meta_data")
    before = flat(m) if m is not None else None
    corpus = ParallelGraphCorpus(relations=["r"], meta_data=m)
    x.prove(corpus.get_annotator() is None, "no annotator yet")
    want = None
    for i in range(n):
        name = x.pick("name%d" % i, [u"Ann", u"Bo\xe9 & co"])
        mode = x.pick("mode%d" % i, ["default", "append", "replace"])
        if mode == "default":
            corpus.set_annotator(name)
        else:
            corpus.set_annotator(name, append=mode == "append")
        want = name if want is None or mode == "replace" else want + u" + " + name
        x.prove(corpus.get_annotator() == want, "annotators are added or replaced")
    new, doc = there_and_back(x, corpus, "object")
    x.prove(new.get_annotator() == want, "the annotators are written and read")
    for c in (corpus, new):
        m = c.get_meta_data()
        if n:
            x.prove(m.tag == "corpus_meta_data" and len(m.findall("annotator")) == 1, "one element for the annotators")
            m.remove(m.find("annotator"))
        if before is not None:
            x.prove(flat(m) == before, "other meta-data stays")
    x.observe(want)


def jobs(tier):
    out = {}
    sizes = [(), (0,), (1,), (2,), (0, 0), (1, 0), (1, 1), (0, 1)]
    if tier == "thorough":
        sizes += [(3,), (0, 0, 0)]
    for s in sizes:
        nrel = 2 if sum(s) == 0 else (1 if sum(s) == 1 else 0)
        name = "-".join(map(str, s))
        out["content-" + name] = (content, dict(sizes=s, nrel=nrel, pprint=False))
        if len(s) == 1:
            out["content-pprint-" + name] = (content, dict(sizes=s, nrel=1, pprint=True))
    for n in (0, 1, 2) if tier == "thorough" else (0, 1):
        out["meta-%d" % n] = (metas, dict(n=n))
    for n in (0, 1, 2):
        out["annotators-%d" % n] = (annotators, dict(n=n))
    for how in ("object", "file", "cwd", "link"):
        out["banks-%s-1" % how] = (banks, dict(n=1, how=how))
    for how in ("read", "written", "moved"):
        out["joined-" + how] = (joined, dict(how=how))
    out["banks-object-2"] = (banks, dict(n=2, how="object"))
    out["banks-file-2"] = (banks, dict(n=2, how="file"))
    if tier == "thorough":
        out["banks-object-3"] = (banks, dict(n=3, how="object"))
    return out
