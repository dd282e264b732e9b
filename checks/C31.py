# -*- coding: utf-8 -*-
"""C31  splitting, joining, copying and packing corpora"""
import os
import warnings
import zipfile
from helpers import *
from scratch import *
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE

warnings.simplefilter("ignore")

META = {
    "first": ["split-parts", "join-2"],
    "bounds": {"quick": "splitting corpora of up to 5 graph pairs into up to 5 parts or by sizes up to 4; joining up to 3 corpora of up to 2 pairs, sharing graph banks or not; copying one or two corpora to a file or directory, present or not, overwriting or not; packing up to 2 corpora; changing the paths of 2 graph banks by 5 prefixes; 4 kinds of paths to two files of a parallel text corpus",
               "thorough": "in addition corpora of up to 9 graph pairs in up to 6 parts"},
    "outside": "larger corpora; Windows; what the tools say while they work",
    "assumptions": [],
}


def bank(ids):
    return ("<graphml><key id='k' for='all' attr.name='tokens'/><key id='l' for='node' attr.name='label'/>" +
            "".join(["<graph id='%s'><data key='k'>tok %s</data><node id='n1'><data key='l'>top</data><data key='k'>tok %s</data></node>"
                     "</graph>" % (i, i, i) for i in ids]) + "</graphml>")


def corpus(banks, pairs, note="me", relations=("equals", "restates")):
    """banks: list of paths; pairs: list of (bank, graph, bank, graph, relation or None)"""
    out = "<parallel_graph_corpus><corpus_meta_data><annotator>%s</annotator></corpus_meta_data><graphbanks>" % note
    out += "".join(["<file id='%d' format='graphml'>%s</file>" % (i, b) for i, b in enumerate(banks)])
    out += "</graphbanks><node_relations>" + "".join(["<relation>%s</relation>" % r for r in relations]) + "</node_relations><aligned_graphs>"
    for a, g, b, h, r in pairs:
        out += "<graph_pair from_bank_id='%d' from_graph_id='%s' to_bank_id='%d' to_graph_id='%s'><aligned_nodes>" % (a, g, b, h)
        if r:
            out += "<node_pair from_node_id='n1' to_node_id='n1' relation='%s'/>" % r
        out += "</aligned_nodes></graph_pair>"
    return out + "</aligned_graphs></parallel_graph_corpus>"


def content(path):
    """what a corpus says: pairs with the real path of their banks, relations, meta-data"""
    c = ParallelGraphCorpus(inf=path, graph_loading=LOAD_NONE)
    return ([tuple([os.path.realpath(b.get_file_path()) for b in gp.get_banks()] + [g.id for g in gp.get_graphs()] +
                   [sorted([(p.source, p.target, r) for p, r in gp.alignments()])]) for gp in c],
            sorted(c.get_relations()), [(e.tag, e.text) for e in c.get_meta_data()])


def pairs(n, first=0):
    return [(0, "g%d" % ((first + i) % 3), 1, "g%d" % i, [None, "equals", "restates"][(first + i) % 3]) for i in range(n)]


BANKS = {"gb/s.xml": bank(["g0", "g1", "g2"]), "gb/t.xml": bank(["g%d" % i for i in range(10)])}


def split(x, top, by, most):
    n = x.choice("pairs", 0, top)
    k = x.choice(by, 1, most)
    default = by == "parts" and k == 2 and x.flag("default")
    files = dict(BANKS)
    files["a/c.pgc"] = corpus(["../gb/s.xml", "../gb/t.xml"], pairs(n))
    argv = ["a/c.pgc"]
    if not default:
        argv += [x.pick("option", ["--" + by, "-" + by[0]]), str(k)]
    if x.flag("pretty"):
        argv.insert(0, "-f")
    with Scratch(files) as s:
        whole, rels, meta = content("a/c.pgc")
        before = get("a/c.pgc")
        code, out = script("pgc_split.py", *argv)
        x.prove(code == 0, "no error")
        x.prove(get("a/c.pgc") == before, "the corpus is left alone")
        names = sorted([f for f in os.listdir("a") if f != "c.pgc"])
        parts, got = [], []
        for f in names:
            p, r, m = content("a/" + f)
            parts.append(len(p))
            x.prove(f == "c_%04d-%04d.pgc" % (len(got) + 1, len(got) + len(p)), "parts tell the numbers of their pairs")
            x.prove(r == rels and m == meta, "parts have the relations and meta-data of the corpus")
            got += p
    x.prove(got == whole, "every pair is in one part, in order")
    x.prove(all(parts), "no part is empty")
    if by == "size":
        x.prove(all([p == k for p in parts[:-1]]) and all([p <= k for p in parts]), "parts have the size asked for, but for the last one")
    else:
        x.prove(len(parts) <= k, "no more parts than asked for")
        if n % k == 0 and n:
            x.prove(parts == [n // k] * k, "as many parts as asked for if that is possible with equal parts")
    x.observe(parts)


def join(x, n):
    files = dict(BANKS)
    files["other/s.xml"] = BANKS["gb/s.xml"]
    names, want = [], []
    for i in range(n):
        k = x.choice("pairs%d" % i, 0, 2)
        b = x.pick("bank%d" % i, ["../gb/s.xml", "../other/s.xml"])
        name = "%s/%s.pgc" % ("ab"[i % 2], "xyz"[i])
        files[name] = corpus([b, "../gb/t.xml"], pairs(k, i), note="me%d" % i)
        names.append(name)
    patterns = n == 2 and x.flag("by pattern")
    argv = ["*/?.pgc"] if patterns else names
    if x.flag("pretty"):
        argv = ["-f"] + argv
    with Scratch(files) as s:
        for f in sorted(names):
            want += content(f)[0]
        meta, rels = content(sorted(names)[0])[2], content(sorted(names)[0])[1]
        code, out = script("pgc_join.py", *argv)
        x.prove(code == 0, "no error")
        put("joined.pgc", out)
        got = content("joined.pgc")
    x.prove(got[0] == want, "the pairs of all corpora, in the order of their names")
    x.prove(got[1:] == (rels, meta), "relations, and the meta-data of the first corpus")
    x.observe(len(got[0]))


def copy(x):
    files = dict(BANKS)
    files["a/c.pgc"] = corpus(["../gb/s.xml", "../gb/t.xml"], pairs(2))
    files["a/d.pgc"] = corpus(["../gb/t.xml", "../gb/s.xml"], pairs(1, 2))
    files["a/bad.pgc"] = "<parallel_graph_corpus>"
    files["b/deep/nothing"] = ""
    sources = ["a/c.pgc"] + x.pick("more", [[], ["a/d.pgc"], ["a/none.pgc", "a/d.pgc"], ["a/bad.pgc", "a/d.pgc"]])
    target = x.pick("target", ["b/deep", "b/new.pgc", "a", "a/c.pgc", "e.pgc"])
    isdir = target in ("b/deep", "a")
    over = x.flag("overwrite")
    there = target in ("b/deep", "b/new.pgc", "e.pgc") and x.flag("there")
    dest = dict([(f, target + "/" + os.path.basename(f) if isdir else target) for f in sources])
    if there:
        files[dest["a/c.pgc"]] = corpus(["x.xml"], [], note="old")
    argv = (["-o"] if over else []) + sources + [target]
    with Scratch(files) as s:
        before = dict([(f, get(f)) for f in files])
        want = dict([(f, content(f)) for f in sources if f in files and "bad" not in f])
        code, out = script("pgc_cp.py", *argv)
        changed = {}
        if len(sources) > 1 and not isdir:
            x.prove(code != 0, "several corpora go to a directory only")
        else:
            x.prove(code == 0, "no error")
            for f in want:
                if target != "a" and target != "a/c.pgc" and (over or not (there and f == "a/c.pgc")):
                    changed[dest[f]] = want[f]
        for f in before:
            if f not in changed:
                x.prove(get(f) == before[f], "other files are left alone")
        for f in changed:
            x.prove(os.path.exists(f) and content(f) == changed[f], "the copy says the same about the same graph banks")
        there_now = []
        for d, ds, fs in os.walk("."):
            there_now += [os.path.normpath(os.path.join(d, f)) for f in fs]
        x.prove(sorted(there_now) == sorted(set(list(before) + list(changed))), "no other files")
        x.observe(sorted(changed))


def pack(x):
    files = dict(BANKS)
    files["gb/u.xml"] = bank(["g0"])
    files["a/c.pgc"] = corpus(["../gb/s.xml", "../gb/t.xml"], pairs(2))
    files["b/d.pgc"] = corpus(["../gb/u.xml", "../gb/t.xml"], [(0, "g0", 1, "g0", None)])
    names = [f for f in ("a/c.pgc", "b/d.pgc") if x.flag(f)] or ["a/c.pgc"]
    argv = ["*/*.pgc"] if len(names) == 2 and x.flag("by pattern") else names
    zip_name = x.pick("name", ["out.zip", "a/pack.zip"])
    top = os.path.basename(zip_name)[:-4]
    with Scratch(files) as s:
        code, out = script("pgc_zip.py", zip_name, *argv)
        x.prove(code == 0, "no error")
        z = zipfile.ZipFile(zip_name)
        want = {}
        for f in names:
            want[top + "/" + os.path.basename(f)] = files[f]
        for b, f in (("gb/s.xml", "a/c.pgc"), ("gb/t.xml", None), ("gb/u.xml", "b/d.pgc")):
            if f is None or f in names:
                want[top + "/" + os.path.basename(b)] = files[b]
        x.prove(sorted(set(z.namelist())) == sorted(want), "the corpora and their graph banks, and nothing else")
        for f in want:
            x.prove(z.read(f) == want[f], "unchanged")
        z.close()
        x.observe(sorted(want))


def pgc_chdir(x):
    banks = ["../gb/s.xml", "../gb2/t.xml"]
    files = {"a/c.pgc": corpus(banks, pairs(2)), "a/d.pgc": corpus(banks[::-1], pairs(1))}
    frm = x.pick("from", ["../gb", "../gb/", "", "..", "gb"])
    to = x.pick("to", ["../../other", "", "x/"])
    names = ["a/c.pgc", "a/d.pgc"][:x.choice("corpora", 1, 2)]
    dry = x.flag("dry run")
    argv = names[:]
    if x.flag("prefixes"):
        argv = ["-p", frm, to] + argv
    else:
        frm = to = ""
    argv += ["-t"] if dry else []
    with Scratch(files) as s:
        before = dict([(f, get(f)) for f in files])
        code, out = script("pgc_chdir.py", *argv)
        x.prove(code == 0, "no error")
        for f in files:
            bs = banks if f == "a/c.pgc" else banks[::-1]
            if dry or f not in names:
                x.prove(get(f) == before[f], "nothing else is changed")
                continue
            new = [to + b[len(frm):] if b.startswith(frm) else b for b in bs]
            tree = shape(get(f))
            x.prove(tree == shape(corpus(new, pairs(2 if f == "a/c.pgc" else 1))), "exactly the paths with the prefix are changed")
        x.observe(names)


def shape(text):
    import xml.etree.cElementTree as et

    def walk(e):
        return e.tag, sorted(e.attrib.items()), (e.text or "").strip(), [walk(c) for c in e]
    return walk(et.fromstring(text))


def ptc_text(frm, to):
    return ("<hitaext><from><filename>%s</filename><render><font/></render></from><to><filename>%s</filename></to>"
            "<alignment><link from_tag='s' from_n='1' to_tag='s' to_n='2'/></alignment></hitaext>" % (frm, to))


def ptc_chdir(x):
    paths = ["x.xml", "../some/dir/x.xml", "C:\\dir\\x.xml", "/abs/x.xml", "D:y.xml"]
    a, b = x.pick("from", paths), x.pick("to", paths)
    d = x.pick("dir", [None, "new/dir", "..", ""])
    dry = x.flag("dry run")
    argv = ["c.ptc"] + ([] if d is None else ["-d", d]) + (["-t"] if dry else [])
    with Scratch({"c.ptc": ptc_text(a, b)}):
        code, out = script("ptc_chdir.py", *argv)
        x.prove(code == 0, "no error")
        base = lambda p: "y.xml" if "y.xml" in p else "x.xml"
        new = [os.path.join(d or "", base(p)) for p in (a, b)]
        x.prove(shape(get("c.ptc")) == shape(ptc_text(a, b) if dry else ptc_text(*new)),
                "the files are in the directory given, and nothing else is changed")
        x.observe(new)


def jobs(tier):
    deep = tier == "thorough"
    return {"split-parts": (split, dict(top=9 if deep else 5, by="parts", most=6 if deep else 5)),
            "split-size": (split, dict(top=9 if deep else 5, by="size", most=6 if deep else 4)),
            "join-1": (join, dict(n=1)), "join-2": (join, dict(n=2)), "join-3": (join, dict(n=3)),
            "copy": (copy, {}), "pack": (pack, {}), "pgc-chdir": (pgc_chdir, {}), "ptc-chdir": (ptc_chdir, {})}
