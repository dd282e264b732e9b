# -*- coding: utf-8 -*-
"""C16  indexed documents"""
from xml.etree.cElementTree import Element
from helpers import *
from daeso.ptc.ielemtree import IndexElemTree

META = {
    "first": ["text-2", "tags-3"],
    "bounds": {"quick": "all trees of up to 3 elements with every choice of short texts and tails (none, blank, with blanks around, longer), of the kinds of elements ignored and of those followed by a line break or blank line; all trees of up to 4 elements with every choice of 3 kinds of elements, ids, ignored kinds, indexed again with any other kinds ignored",
               "thorough": "in addition trees of 4 elements with texts and of 5 elements with kinds"},
    "outside": "larger trees",
    "assumptions": ["white space around pieces of text does not count, as documented"],
}
TEXTS = [None, " a ", u"bc\xe9"]


def tree(x, n, tags):
    """every tree of n elements -> root, elements in document order"""
    elems = [Element(tags(0))]
    last = [elems[0]]   # the path to the last element
    for i in range(1, n):
        depth = x.choice("depth%d" % i, 1, len(last))
        e = Element(tags(i))
        last[depth - 1].append(e)
        last = last[:depth] + [e]
        elems.append(e)
    return elems


def ignored(elems, tags):
    """elements that are ignored themselves or within such an element"""
    out = []

    def walk(e, ign):
        ign = ign or e.tag in tags
        if ign:
            out.append(id(e))
        for c in list(e):
            walk(c, ign)
    walk(elems[0], False)
    return out


def clean(s):
    return (s or "").strip()


def content(e, opts):
    """the text of an element: its own, that of its children and between them"""
    if e.tag in opts[0]:
        return ""
    s = clean(e.text)
    for c in list(e):
        s += content(c, opts)
        if c.tag not in opts[0]:
            s += "\n\n" if c.tag in opts[2] else "\n" if c.tag in opts[1] else ""
        s += clean(c.tail)
    return s


def judge(x, t, elems, opts):
    off = ignored(elems, opts[0])
    per_tag = {}
    for e in elems:
        per_tag.setdefault(e.tag, []).append(e)
        x.prove(e.get("_n") == len(per_tag[e.tag]), "elements of a kind are numbered in document order")
        x.prove(e.get("_alignments") == [], "no alignments yet")
        x.prove(bool(e.get("_ignore")) == (id(e) in off), "exactly the ignored elements and those inside are marked")
        want = "" if id(e) in off else content(e, opts)
        x.prove(t.get_elem_text(e) == want, "the text of an element is the text between its start and end")
        if id(e) not in off:
            x.prove(0 <= e.get("_start") <= e.get("_end") <= len(t.text), "start and end lie within the text")
            x.prove(t.text[e.get("_start"):e.get("_end")] == want, "the text of an element is between start and end")
            end = e.get("_start")
            for c in list(e):
                if id(c) not in off:
                    x.prove(end <= c.get("_start") and c.get("_end") <= e.get("_end"),
                            "children lie inside their parent, one after the other")
                    end = c.get("_end")
    x.prove(sorted(t.tagCountTable) == sorted(per_tag), "a list for every kind of element")
    for tag in per_tag:
        x.prove([id(e) for e in t.tagCountTable[tag]] == [id(e) for e in per_tag[tag]],
                "elements of a kind in document order")
        for e in per_tag[tag]:
            same = [f for f in per_tag[tag] if f.get("id") == e.get("id")]
            if e.get("id") is not None and len(same) == 1:
                x.prove(t.tagIdTable[tag][e.get("id")] is e, "elements are found by kind and id")


def make(elems):
    t = IndexElemTree()
    t._setroot(elems[0])
    return t


def index(t, opts):
    t.update(ignoreTags=opts[0], newlineTags=opts[1], blanklineTags=opts[2])


def text(x, n):
    elems = tree(x, n, lambda i: "abc"[i % 3])
    for i, e in enumerate(elems):
        e.text = x.pick("text%d" % i, TEXTS[:2] if n > 3 else TEXTS)
        if i:
            e.tail = x.pick("tail%d" % i, TEXTS[:2] if n > 3 else [None, "  ", "de "])
    opts = [], [], []
    for i, e in enumerate(elems[1:3]):
        for which in x.pick("setting %s" % e.tag, [(), (0,), (1,), (2,), (1, 2)]):
            opts[which].append(e.tag)
    t = make(elems)
    index(t, opts)
    judge(x, t, elems, opts)
    x.prove(t.text.startswith(content(elems[0], opts)), "the text of the document is that of its root")
    x.observe((t.text, [e.get("_start") for e in elems], [e.get("_end") for e in elems]))


def tags(x, n):
    kinds = ["a", "b", "c"]
    elems = tree(x, n, lambda i: x.pick("tag%d" % i, kinds[:min(i + 1, 3)]))
    for i, e in enumerate(elems):
        e.text = "t%d" % i
        e.set("id", "same" if i == 2 and x.flag("same id") else "i%d" % (i + 1))
        if i:
            e.tail = "."
    t = make(elems)
    for step in range(2):
        opts = ([k for k in kinds if k in [e.tag for e in elems] and x.flag("ignore %s %d" % (k, step))],
                kinds[:1], kinds[1:2])
        index(t, opts)
        judge(x, t, elems, opts)
    snapshot = [sorted(e.attrib.items()) for e in elems], t.text
    index(t, opts)
    x.prove(snapshot == ([sorted(e.attrib.items()) for e in elems], t.text), "indexing again changes nothing")
    x.observe(t.text)


def defaults(x):
    elems = tree(x, 3, lambda i: "ab"[i % 2])
    for e in elems:
        e.text = "x"
    t = make(elems)
    t.update()
    judge(x, t, elems, ([], [], []))
    x.observe(t.text)


def jobs(tier):
    deep = tier == "thorough"
    out = {"defaults": (defaults, {})}
    for n in range(1, 5 if deep else 4):
        out["text-%d" % n] = (text, dict(n=n))
    for n in range(1, 6 if deep else 5):
        out["tags-%d" % n] = (tags, dict(n=n))
    return out
