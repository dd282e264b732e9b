# -*- coding: utf-8 -*-
"""C05  graph loading modes of parallel graph corpora"""
import os
import shutil
import tempfile
import warnings
import xml.etree.cElementTree as et
from helpers import *
from corpora import *
from xmlevents import Doc, fake_expat
from xmlshim import NAMES
from standin import standin
import daeso.gb.parser
import daeso.pgc.corpus as pc
from daeso.exception import DaesoError
from daeso.gb.graphstub import GraphStub

warnings.simplefilter("ignore")

META = {
    "bounds": {"quick": "corpora of up to 2 graph pairs over 1 or 2 graph banks of up to 3 graphs; every equality pattern of the graph ids of the banks and of the pairs; the three modes; missing graphs, banks, files and attributes; graph banks beside the corpus instead of at their path",
               "thorough": "up to 3 pairs"},
    "outside": "the Alpino format; graphs' content (see C06); garbage collection of graphs that are no longer used",
    "assumptions": ["the two sides of a pair are different graphs, as the code assumes",
                    "graph ids within a bank differ",
                    "symbolic documents reach the code through stand-ins for the XML parsers; sampled paths are replayed with real XML files"],
}


def bank_doc(x, ids, words):
    d = Doc().start("graphml")
    d.elem("key", {"id": "k", "for": "all", "attr.name": "tokens"})
    d.elem("key", {"id": "l", "for": "node", "attr.name": "label"})
    for i, w in zip(ids, words):
        d.start("graph", id=i).elem("data", {"key": "k"}, w)
        d.start("node", id="n1").elem("data", {"key": "l"}, "lab").elem("data", {"key": "k"}, w).end("node")
        d.end("graph")
    return d.end("graphml")


class World(object):
    """the files of a corpus, real ones or stand-ins"""

    def __init__(self, x):
        self.x = x
        self.docs = {}
        self.opened = []

    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp())
        self.xml = None
        if self.x.symbolic:
            daeso.gb.parser.open = self.open
            self.xml = standin(NAMES, iterparse=self.iterparse, parse=self.parse)
            self.xml.__enter__()
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.dir)
        if self.x.symbolic:
            self.xml.__exit__()
            del daeso.gb.parser.open

    # stand-ins
    def open(self, name, *mode):
        self.opened.append(name)
        if name not in self.docs:
            e = IOError(2, "No such file or directory", name)
            raise e
        return self.docs[name]

    def parse(self, name, *parser):
        return et.ElementTree(self.docs[name])

    def iterparse(self, name, events=("end",)):
        return self.walk(self.docs[name], events)

    def walk(self, elem, events):
        if "start" in events:
            yield "start", elem
        for c in elem:
            for e in self.walk(c, events):
                yield e
        yield "end", elem

    # files
    def bank(self, name, doc):
        p = os.path.join(self.dir, name)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        f = open(p, "wb")
        if not self.x.symbolic:
            f.write(doc.render())
        f.close()
        doc.name = p
        self.docs[p] = doc
        return p

    def corpus(self, root):
        p = os.path.join(self.dir, "corpus.pgc")
        if not self.x.symbolic:
            et.ElementTree(root).write(p)
        self.docs[p] = root
        return p


def corpus_elem(x, banks, pairs, aligned=()):
    """banks: id -> path; pairs: attributes"""
    root = et.Element("parallel_graph_corpus")
    gb = et.SubElement(root, "graphbanks")
    for i, p in banks:
        et.SubElement(gb, "file", id=i, format="graphml").text = p
    rel = et.SubElement(root, "node_relations")
    et.SubElement(rel, "relation").text = "equals"
    al = et.SubElement(root, "aligned_graphs")
    for n, attrs in enumerate(pairs):
        e = et.SubElement(al, "graph_pair", **attrs)
        if n in aligned:
            et.SubElement(e, "node_pair", from_node_id="n1", to_node_id="n1", relation="equals")
    return root


def distinct(x, ids):
    for i in range(len(ids)):
        for j in range(i):
            x.assume(x.Not(x.Eq(ids[i], ids[j])))


def modes(x, sizes, n, mode):
    x.canonical_tokens()
    k = sum(sizes) + 2 * n
    with World(x) as w:
        with fake_expat(x):
            ids, words, banks = [], [], []
            for b, size in enumerate(sizes):
                ids.append(tokens(x, "bank%d-" % b, size, k))
                distinct(x, ids[b])
                words.append(["word%d-%d" % (b, i) for i in range(size)])
                banks.append((str(b + 1), w.bank("bank%d.xml" % b, bank_doc(x, ids[b], words[b]))))
            refs = []
            for i in range(n):
                side = []
                for s in ("from", "to"):
                    side.append((x.choice("%s bank %d" % (s, i), 0, len(sizes) - 1), x.token("%s graph %d" % (s, i), k)))
                x.assume(x.Or(side[0][0] != side[1][0], x.Not(x.Eq(side[0][1], side[1][1]))))
                refs.append(side)
            attrs = [dict(n=str(i), from_bank_id=str(f[0] + 1), from_graph_id=f[1], to_bank_id=str(t[0] + 1), to_graph_id=t[1])
                     for i, (f, t) in enumerate(refs)]
            aligned = x.pick("aligned", [[0], [1]]) if n > 1 else [0]
            name = w.corpus(corpus_elem(x, banks, attrs, aligned=aligned))
            missing = x.Or(*[x.Not(member(x, g, ids[b])) for side in refs for b, g in side]) if refs else False
            out = []
            bad = raises(lambda: out.append(ParallelGraphCorpus(inf=name, graph_loading=mode)), DaesoError)
            if mode == pc.LOAD_NONE:
                x.prove(not bad, "no graph is looked up")
                x.prove(w.opened == [], "no graph bank is opened")
            else:
                x.prove(x.Eq(missing, bad), "a missing graph is an error, and nothing else is")
            x.observe(bad)
            if bad:
                return
            c = out[0]
            x.prove(len(c) == n and c.get_relations() == ["equals"], "pairs and relations")
            objects = {}
            for i, (p, side) in enumerate(zip(c, refs)):
                x.prove(triples(p) == ([("n1", "n1", "equals")] if i in aligned else []), "alignments")
                for bank, graph, (b, g) in zip(p.get_banks(), p.get_graphs(), side):
                    x.prove(bank.get_file_path() == banks[b][1] and bank.get_format() == "graphml", "graph bank")
                    x.prove(objects.setdefault(b, bank) is bank, "one object for every graph bank")
                    x.prove(x.Eq(graph.id, g), "graph id")
                    if mode == pc.LOAD_NONE:
                        x.prove(isinstance(graph, GraphStub), "a stub")
                        continue
                    x.prove(isinstance(graph, DaesoGraph), "a graph")
                    x.prove(bank.get_graph(g) is graph, "the graph of the bank")
                    at = [j for j in range(len(ids[b])) if x.fork(x.Eq(ids[b][j], g))]
                    x.prove(len(at) == 1 and graph.tokens == [words[b][at[0]]] and graph.nodes() == ["n1"] and
                            graph.node["n1"]["tokens"] == graph.tokens, "content of the graph")
            for b, bank in objects.items():
                used = [g for side in refs for o, g in side if o == b]
                if mode == pc.LOAD_SPARSE:
                    x.prove(x.Eq(n_types(x, used), len(bank)), "exactly the graphs in use are kept")
                    for g in bank:
                        x.prove(member(x, g.id, used), "exactly the graphs in use are kept")
                elif mode == pc.LOAD_ALL:
                    x.prove(len(bank) == len(ids[b]), "all graphs are kept")
                    for g in bank:
                        x.prove(member(x, g.id, ids[b]), "the graphs of the bank")
                    x.prove(len(list(bank)) == len(bank), "iteration over the bank")


def errors(x, mode):
    """documents that refer to what is not there"""
    with World(x) as w:
        with fake_expat(x):
            p = w.bank("bank.xml", bank_doc(x, ["g1", "g2"], ["a", "b"]))
            attrs = dict(n="1", from_bank_id="1", from_graph_id="g1", to_bank_id="1", to_graph_id="g2")
            wrong = x.pick("wrong", [None] + sorted(attrs) + ["file", "from", "to", "pair order", "format"])
            if wrong in attrs:
                del attrs[wrong]
            elif wrong == "from":
                attrs["from_bank_id"] = "7"
            elif wrong == "to":
                attrs["to_bank_id"] = "7"
            elif wrong == "file":
                p = p + ".gone"
            root = corpus_elem(x, [("1", p)], [attrs])
            if wrong == "format":
                root.find("graphbanks/file").set("format", "nosuch")
            name = w.corpus(root)
            c = ParallelGraphCorpus()
            bad = raises(lambda: c.read(name, mode), AssertionError if wrong == "format" else DaesoError)
            expect = wrong not in (None, "n", "pair order") and not (mode == pc.LOAD_NONE and wrong in ("file", "format"))
            x.prove(bad == expect, "what is missing is reported")


def places(x, mode):
    """relative paths, and graph banks beside the corpus"""
    with World(x) as w:
        with fake_expat(x):
            d = bank_doc(x, ["g1", "g2"], ["far", "b"])
            e = bank_doc(x, ["g1", "g2"], ["near", "b"])
            far = w.bank("sub/deep/bank.xml", d) if x.flag("at its path") else None
            near = w.bank("bank.xml", e) if x.flag("beside the corpus") else None
            relative, relax = x.flag("relative"), x.flag("relax")
            path = "sub/deep/bank.xml" if relative else os.path.join(w.dir, "sub/deep/bank.xml")
            attrs = dict(n="1", from_bank_id="1", from_graph_id="g1", to_bank_id="1", to_graph_id="g2")
            name = w.corpus(corpus_elem(x, [("1", " \n" + path + "\n")], [attrs]))
            c = ParallelGraphCorpus()
            bad = raises(lambda: c.read(name, mode, relax_gb_paths=bool(relax)), DaesoError)
            real = "far" if far else "near" if near and relax else None
            x.prove(bad == (real is None), "the graph bank is found")
            if not bad:
                x.prove(c[0].get_source_graph().tokens == [real], "the right graph bank is read")
                x.prove(c[0].get_source_bank().get_file_path() == (far or near), "path of the graph bank")


def jobs(tier):
    out = {}
    names = {pc.LOAD_ALL: "all", pc.LOAD_SPARSE: "sparse", pc.LOAD_NONE: "none"}
    shapes = [((0,), 0), ((2,), 0), ((0,), 1), ((2,), 1), ((1, 1), 1), ((3,), 1)]
    for m, name in names.items():
        two = [((2,), 2), ((2, 1), 1), ((1, 1), 2), ((2, 1), 2)]
        if tier == "thorough":
            two += [((3,), 2), ((2, 2), 1), ((2, 2), 2)]
            if m != pc.LOAD_ALL:
                two += [((2,), 3)]
        for s, n in shapes + two:
            out["%s-%s-%d" % (name, "-".join(map(str, s)), n)] = (modes, dict(sizes=s, n=n, mode=m))
        out["errors-" + name] = (errors, dict(mode=m))
        if m != pc.LOAD_NONE:
            out["places-" + name] = (places, dict(mode=m))
    return out
