# -*- coding: utf-8 -*-
"""C15  the alignments and settings of a parallel text corpus"""
from StringIO import StringIO
from helpers import *
from scratch import *
from daeso.ptc.document import HitaextDoc
from daeso.ptc.ielemtree import IndexElemTree

META = {
    "first": ["links-n-1", "links-id-1"],
    "bounds": {"quick": "up to 2 links (possibly the same) between any of 5 source and 4 target elements of two kinds, up to 3 links between 3 and 2 elements, by number and by id, one link between any of 12 source and 12 target elements beside 4 others, some kinds of elements ignored or not, injected, extracted, converted to the other method, written and read; documents of up to 4 elements of up to 3 kinds (with every choice of settings for two of them); every combination of files that exist; the tool that converts corpora to alignment by id on up to 2 corpora",
               "thorough": "in addition 3 links between 5 and 4 elements and documents of 5 elements"},
    "outside": "more links; elements without an id when aligning by id; Windows paths",
    "assumptions": ["ids are unique per kind of element"],
}

SOURCE = "<d id='D'><p id='x'><s id='x'>a</s><s id='y'>b</s></p><p id='y'/></d>"
TARGET = "<e><q id='x'><s id='y'>c</s></q><s id='x'>d</s><q id='1'/></e>"
ELEMS = ([("s", 1, "x"), ("s", 2, "y"), ("p", 1, "x"), ("p", 2, "y"), ("d", 1, "D")],
         [("s", 1, "y"), ("s", 2, "x"), ("q", 1, "x"), ("q", 2, "1")])


def trees(ignore=()):
    out = IndexElemTree(StringIO(SOURCE)), IndexElemTree(StringIO(TARGET))
    for t in out:
        t.update(ignoreTags=ignore)
    return out


def find(tree, elem):
    return [e for e in tree.getiterator() if e.tag == elem[0]][elem[1] - 1]


def name(e):
    return (e.tag, e.get("_n"), e.get("id"))


def links(doc):
    """the links of a document by method"""
    out = []
    for e in doc.get_alignments():
        n = tuple([e.get(k) for k in ("from_tag", "from_n", "to_tag", "to_n")])
        i = tuple([e.get(k) for k in ("from_tag", "from_id", "to_tag", "to_id")])
        out.append(("n", n) if n[1] is not None else ("id", i))
    return sorted(out)


def expected(pairs, method):
    if method == "id":
        return sorted([("id", (s[0], s[2], t[0], t[2])) for s, t in pairs])
    return sorted([("n", (s[0], str(s[1]), t[0], str(t[1]))) for s, t in pairs])


def aligned(x, tree, side, pairs):
    """every element is aligned to what it should be"""
    for e in tree.getiterator():
        here = sorted([p[1 - side] for p in pairs if p[side] == name(e)])
        x.prove(sorted(map(name, e.get("_alignments"))) == here,
                "every element knows the elements it is aligned to, once per link")


def alignment(x, n, method, k, l):
    doc = HitaextDoc()
    doc.set_filename("from", "a.xml")
    doc.set_filename("to", "b.xml")
    if method != "n" or x.flag("method given"):
        doc.set_alignment_method(method)
    pairs = []
    for i in range(n):
        if x.flag("link%d" % i):
            s, t = x.pick("s%d" % i, ELEMS[0][:k]), x.pick("t%d" % i, ELEMS[1][:l])
            pairs.append((s, t))
            if method == "id":
                doc.add_id_alignment(s[0], s[2], t[0], t[2])
            else:
                doc.add_n_alignment(s[0], s[1], t[0], t[1])
    x.prove(links(doc) == expected(pairs, method), "a link for every alignment added")
    a, b = trees(["p", "q"] if x.flag("ignore some") else [])
    doc.inject_alignments(a, b)
    aligned(x, a, 0, pairs)
    aligned(x, b, 1, pairs)
    x.prove(links(doc) == expected(pairs, method), "injection leaves the links alone")
    doc.extract_alignments(a, b)
    x.prove(links(doc) == expected(pairs, method), "extraction gives the alignments injected")
    # convert
    other = {"n": "id", "id": "n"}[method]
    doc.set_alignment_method(other)
    x.prove(doc.get_alignment_method() == other, "the method is the one set")
    doc.extract_alignments(a, b)
    x.prove(links(doc) == expected(pairs, other), "the same alignments by the other method")
    out = StringIO()
    doc.write(out)
    again = HitaextDoc(file=StringIO(out.getvalue()))
    x.prove(links(again) == expected(pairs, other), "the same links after writing and reading")
    x.prove(again.get_alignment_method() == other, "the same method after writing and reading")
    x.prove((again.get_filename("from"), again.get_filename("to")) == ("a.xml", "b.xml"), "the same files")
    c, d = trees()
    again.inject_alignments(c, d)
    aligned(x, c, 0, pairs)
    aligned(x, d, 1, pairs)
    again.clear_alignments()
    x.prove(links(again) == [], "no links after clearing")
    x.prove(links(doc) == expected(pairs, other), "documents are independent")
    x.observe(links(doc))


def many(x, n, method):
    """a link between elements of many, beside other links"""
    xml = "<d>" + "".join(["<s id='i%d'>%d</s>" % (n - i, i) for i in range(n)]) + "</d>"
    a, b = IndexElemTree(StringIO(xml)), IndexElemTree(StringIO(xml))
    for t in (a, b):
        t.update()
    elems = [("s", i + 1, "i%d" % (n - i)) for i in range(n)]
    pairs = [(elems[i], elems[-1 - i]) for i in range(0, n, 3)]
    pairs.append((x.pick("source", elems), x.pick("target", elems)))
    doc = HitaextDoc()
    doc.set_alignment_method(method)
    for s, t in pairs:
        if method == "id":
            doc.add_id_alignment(s[0], s[2], t[0], t[2])
        else:
            doc.add_n_alignment(s[0], s[1], t[0], t[1])
    doc.inject_alignments(a, b)
    aligned(x, a, 0, pairs)
    aligned(x, b, 1, pairs)
    doc.extract_alignments(a, b)
    x.prove(links(doc) == expected(pairs, method), "extraction gives the alignments injected")
    doc.set_alignment_method({"n": "id", "id": "n"}[method])
    doc.extract_alignments(a, b)
    x.prove(links(doc) == expected(pairs, doc.get_alignment_method()), "the same alignments by the other method")
    x.observe(links(doc))


def converted(x):
    """the tool that converts corpora to alignment by id"""
    corpora = []
    files = {"a.xml": SOURCE, "b.xml": TARGET}
    with Scratch(files):
        for c in range(x.choice("corpora", 1, 2)):
            doc = HitaextDoc()
            doc.set_filename("from", "a.xml")
            doc.set_filename("to", "b.xml")
            pairs = []
            method = "id" if c == 0 and x.flag("by id already") else "n"
            doc.set_alignment_method(method)
            for i in range(2 - c):
                if x.flag("link%d-%d" % (c, i)):
                    s, t = x.pick("s%d-%d" % (c, i), ELEMS[0][c + i:3 + i]), x.pick("t%d-%d" % (c, i), ELEMS[1][c + i:2 + i])
                    pairs.append((s, t))
                    if method == "id":
                        doc.add_id_alignment(s[0], s[2], t[0], t[2])
                    else:
                        doc.add_n_alignment(s[0], s[1], t[0], t[1])
            doc.write("c%d.htx" % c)
            corpora.append(pairs)
        code, out = script("ptc_n_to_id.py", *["c%d.htx" % c for c in range(len(corpora))])
        x.prove(not code, "the tool succeeds")
        for c, pairs in enumerate(corpora):
            doc = HitaextDoc(file="c%d.htx" % c)
            x.prove(doc.get_alignment_method() == "id" and links(doc) == expected(pairs, "id"), "the same alignments by id")
            x.prove((doc.get_filename("from"), doc.get_filename("to")) == ("a.xml", "b.xml"), "the same files")
        x.prove(open("a.xml").read() == SOURCE and open("b.xml").read() == TARGET, "the documents are left alone")
    x.observe(corpora)


def unknown(x):
    doc = HitaextDoc()
    m = x.pick("method", ["", "N", "ids", "number"])
    x.prove(raises(lambda: doc.set_alignment_method(m), AssertionError), "an unknown method is an error")
    doc.get_alignments().set("method", m)
    a, b = trees()
    if m:
        x.prove(raises(lambda: doc.inject_alignments(a, b), AssertionError), "an unknown method is an error")
        x.prove(raises(lambda: doc.extract_alignments(a, b), AssertionError), "an unknown method is an error")
    x.observe(m)


def files(x):
    """looking for the files aligned"""
    side = x.pick("side", ["from", "to"])
    fn = x.pick("name", ["sub/x.xml", "x.xml", "  x.xml\n", "../y/x.xml"])
    base = fn.strip().split("/")[-1]
    where = [fn.strip(), "docs/" + fn.strip(), "docs/" + base]
    with Scratch({"docs/doc.htx": "<hitaext><from><filename>%s</filename></from><to><filename>%s</filename></to>"
                                  "<alignment/></hitaext>" % ((fn, "other.xml") if side == "from" else ("other.xml", fn)),
                  "work/nothing": "", "y/nothing": "", "docs/y/nothing": "", "sub/nothing": "", "docs/sub/nothing": ""}) as s:
        os.chdir(os.path.join(s.dir, "work"))
        top = "../"
        doc = HitaextDoc(file=top + "docs/doc.htx")
        cands = [fn.strip(), os.path.join("../docs", fn.strip()), "../docs/" + base]
        there = []
        for i, c in enumerate(cands):
            d = os.path.dirname(c)
            if (not d or os.path.isdir(d)) and x.flag("exists %d" % i):
                put(c, "<d/>")
        for c in cands:
            if os.path.exists(c):
                there.append(c)
        x.prove(doc.get_filename(side) == fn.strip(), "without search the name as it is")
        got = doc.get_filename(side, search=True)
        x.prove(got == (there + [fn.strip()])[0],
                "as given, relative to the document, or beside the document, else the name as it is")
        if there:
            x.prove(doc.get_doc_tree(side, search=True).getroot().tag == "d", "the tree of the file found")
        x.observe(got)


def nameless(x):
    """documents without the name of an aligned file are invalid"""
    names = {}
    for side in ("from", "to"):
        names[side] = x.pick(side, ["x.xml", "", "  ", "\n", None])
    xml = "<hitaext>%s<alignment/></hitaext>" % "".join(
        ["<%s>%s</%s>" % (s, "<filename/>" if names[s] is None else "<filename>%s</filename>" % names[s], s)
         for s in ("from", "to")])
    out = []
    bad = raises(lambda: out.append(HitaextDoc(file=StringIO(xml))), AssertionError)
    x.prove(bad == (not all([(n or "").strip() for n in names.values()])), "a document without a filename is invalid")
    if not bad:
        x.prove([out[0].get_filename(s) for s in ("from", "to")] == ["x.xml"] * 2, "names of the files")
    new = HitaextDoc()
    x.prove(new.get_filename("from") == "" and new.get_filename("to", search=True) == "", "a new document has no names yet")
    x.observe(bad)


def settings(x, n, kinds):
    """the render section describes the elements of the trees"""
    tags = [x.pick("tag%d" % i, ["c", "a", "b"][:min(i + 1, kinds)]) for i in range(n)]
    xml = "".join(["<%s>" % t for t in tags] + ["</%s>" % t for t in reversed(tags)])
    if n > 2 and x.flag("flat"):
        xml = "<%s>%s</%s>" % (tags[0], "".join(["<%s/>" % t for t in tags[1:]]), tags[0])
    tree = IndexElemTree(StringIO(xml))
    doc = HitaextDoc()
    side = x.pick("side", ["from", "to"])
    doc.init_elems(side, tree)
    order = []
    for t in tags:
        if t not in order:
            order.append(t)
    other = {"from": "to", "to": "from"}[side]
    set_ = {}
    for a in ("ignore", "newline"):
        for t in order[:2]:
            if x.flag("%s %s" % (a, t)):
                doc.get_elem(side, t).set(a, "True")
                set_.setdefault(a, []).append(t)
    if x.flag("read again"):
        out = StringIO()
        doc.set_filename("from", "a")
        doc.set_filename("to", "b")
        doc.write(out)
        doc = HitaextDoc(file=StringIO(out.getvalue()))
    x.prove(doc.get_elem_tags(side) == order, "one entry per kind of element")
    x.prove(doc.get_elem_tags(other) == [], "the other side is left alone")
    x.prove(doc.get_pseudo_root(side) == tags[0], "the root is the pseudo root")
    x.prove(doc.get_pseudo_root_tags(side) == [t for t in order if tags.count(t) == 1],
            "candidates for pseudo root occur once")
    x.prove(doc.get_tags(side, "skip") == [] and doc.get_tags(side, "blankline") == [], "nothing is set at first")
    for a in ("ignore", "newline"):
        x.prove(doc.get_tags(side, a) == set_.get(a, []), "exactly the kinds of elements for which it is set")
    for t in order:
        x.prove(doc.get_elem(side, t).tag == t, "the entry of a kind of element")
    x.prove(sorted(doc.get_elem_dict(side, None)) == sorted(order), "the entries by kind")
    x.observe(doc.get_elem_tags(side))


def jobs(tier):
    out = {"unknown": (unknown, {}), "converted": (converted, {}), "files": (files, {}), "nameless": (nameless, {})}
    for method in ("n", "id"):
        out["links-%s-1" % method] = (alignment, dict(n=1, method=method, k=5, l=4))
        out["links-%s-2" % method] = (alignment, dict(n=2, method=method, k=5, l=4))
        out["links-%s-3" % method] = (alignment, dict(n=3, method=method, k=3, l=2))
        if tier == "thorough":
            out["links-%s-3-all" % method] = (alignment, dict(n=3, method=method, k=5, l=4))
    for method in ("n", "id"):
        out["many-" + method] = (many, dict(n=12, method=method))
    for n in range(1, 6 if tier == "thorough" else 5):
        out["settings-%d" % n] = (settings, dict(n=n, kinds=3))
    return out
