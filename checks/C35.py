# -*- coding: utf-8 -*-
"""C35  comparing, writing and indenting XML elements; files and directories"""
import glob as real_glob
import os
import xml.etree.cElementTree as et
from helpers import *
from scratch import *
from daeso.utils import etree as m
from daeso.utils import opsys
from daeso.utils.report import header

META = {
    "first": ["equals-1", "write-2"],
    "bounds": {"quick": "comparison: elements with symbolic tags, texts, tails and values of attributes, up to 2 attributes and up to 2 children with up to 1 child each; writing: trees of up to 3 levels with 7 kinds of text, to an object or a file; 4 files and every choice of 2 of 5 patterns; directories present, absent, below others or below a file",
               "thorough": "in addition comparison of elements with 3 children"},
    "outside": "comments and processing instructions; encodings other than utf-8 (the code writes no other)",
    "assumptions": ["symbolic texts stand for texts without space around them"],
}


def element(x, name, shape, k):
    """shape: (kind of text, kind of tail, attributes, children)"""
    text, tail, attrs, children = shape
    e = et.Element(x.token(name + "-tag", k))
    for field, kind in (("text", text), ("tail", tail)):
        value = {"none": None, "empty": "", "space": " \n"}.get(kind)
        if kind == "word":
            value = x.token("%s-%s" % (name, field), k)
        setattr(e, field, value)
    for a in attrs:
        e.attrib[a] = x.token("%s-%s" % (name, a), k)
    for i, c in enumerate(children):
        e.append(element(x, "%s%d" % (name, i), c, k))
    return e


def blank(s):
    return s is None or isinstance(s, (str, unicode)) and not s.strip()


def text_same(x, a, b):
    if blank(a) or blank(b):
        return blank(a) and blank(b)
    return x.Eq(a, b)


def same(x, a, b):
    if len(a) != len(b) or sorted(a.attrib) != sorted(b.attrib):
        return False
    return x.And(x.Eq(a.tag, b.tag), text_same(x, a.text, b.text), text_same(x, a.tail, b.tail),
                 *([x.Eq(a.attrib[k], b.attrib[k]) for k in a.attrib] + [same(x, c, d) for c, d in zip(a, b)]))


KINDS = ["none", "empty", "space", "word"]


PLAIN = ("word", "word", ["k"], [])


def shape(x, name, depth, most):
    """any shape if without children, otherwise with one child of any shape
    and siblings of a plain one"""
    if not depth:
        return x.pick(name + " text", KINDS), x.pick(name + " tail", KINDS), x.pick(
            name + " attributes", [[], ["k"], ["l"], ["k", "l"]]), []
    n = x.choice(name + " children", 0, most)
    children = [PLAIN] * n
    if n:
        i = x.choice(name + " which", 0, n - 1)
        if depth > 1:
            children[i] = shape(x, name + " child", depth - 1, most)
        else:
            children[i] = x.pick(name + " child", [("none", "none", [], []), ("space", "word", ["k"], []), ("word", "empty", [], [])])
    return PLAIN[:3] + (children,)


def equals(x, depth, most):
    a = element(x, "a", shape(x, "a", depth, most), 3)
    b = element(x, "b", shape(x, "b", depth, most), 3)
    want = same(x, a, b)
    got = bool(m.equals(a, b))
    x.prove(x.Eq(got, want), "equal exactly when tag, text, tail, attributes and children are")
    x.prove(bool(m.equals(b, a)) == got and m.equals(a, a), "either way, and to itself")
    x.observe(got)


TEXTS = [None, "", "x", "  ", u"\u00e9\u20ac <&> \" '", " x\n", "x y"]


def tree(x, name, depth, top=False, deep=False):
    n = x.choice(name + " children", 0, 2 if top else 1) if depth else 0
    e = et.Element(x.pick(name + " tag", ["doc", u"t\u00eb"]) if top and not deep else "e" + str(depth))
    e.text = x.pick(name + " text", TEXTS if top and not deep else [None, "x"])
    if not top:
        e.tail = x.pick(name + " tail", [None, "y "] if deep else [None, " ", "y "])
    elif not deep:
        if e.tag != "doc":
            e.attrib["k"] = u"<\u00e9&\">'"
    for i in range(n):
        e.append(tree(x, "%s %d" % (name, i), depth - 1, False, deep))
    return e


def dump(e):
    return e.tag, e.text or "", e.tail or "", sorted(e.attrib.items()), [dump(c) for c in e]


def bare(d):
    tag, text, tail, attrs, children = d
    strip = lambda t: "" if not t.strip() else t
    return tag, strip(text), strip(tail), attrs, [bare(c) for c in children]


class Buffer(object):
    def __init__(self):
        self.parts = []
        self.closed = False

    def write(self, s):
        if isinstance(s, unicode):
            s = s.encode("ascii")
        self.parts.append(s)

    def flush(self):
        pass

    def close(self):
        self.closed = True


def indented(x, e, level=0):
    """whitespace before every child and before the end tag"""
    if len(e):
        if not (e.text or "").strip():
            x.prove(e.text == "\n" + "  " * (level + 1), "first child on a line of its own")
        for i, c in enumerate(e):
            if not (c.tail or "").strip():
                last = i == len(e) - 1
                x.prove(c.tail == "\n" + "  " * (level if last else level + 1), "children and end tag on lines of their own")
            indented(x, c, level + 1)


def write(x, depth):
    e = tree(x, "t", depth, True, depth > 1)
    before = dump(e)
    pretty, to = x.flag("pretty"), x.pick("to", ["object", "there.xml", "new.xml"])
    kw = {"pprint": True} if pretty else {}
    with Scratch({"there.xml": "old and longer " * 40}):
        if to == "object":
            f = Buffer()
            m.write(et.ElementTree(e), f, **kw)
            x.prove(not f.closed, "the object stays open")
            text = "".join(f.parts)
        else:
            m.write(et.ElementTree(e), to, **kw)
            text = get(to)
    x.prove(text.startswith("<?xml ") and text.count("<?xml") == 1, "one XML declaration")
    x.prove("\n" in text and text.split("\n")[0].endswith("?>"), "on a line of its own")
    got = et.fromstring(text)
    if pretty:
        x.prove(bare(dump(got)) == bare(before), "reads back as the same but for space between elements")
        indented(x, got)
    else:
        x.prove(dump(got) == before, "reads back as the same")
        x.prove(dump(e) == before, "the elements are left alone")
    x.observe(len(text))


def files(x):
    names = [f for f in ["a.x", "b.x", "c.y", "d/a.x"] if x.flag(f)]
    patterns = ["*.x", "?.*", "d/*", "a.x", "none*"]
    p = [x.pick("p%d" % i, patterns) for i in range(x.choice("patterns", 0, 2))]
    with Scratch(dict([(f, "") for f in names])):
        os.path.isdir("d") or os.mkdir("d")
        hits = []
        for q in p:
            hits += real_glob.glob(q)
        x.prove(opsys.multiglob(p) == sorted(hits), "the files of all patterns, sorted")
        if p:
            x.prove(opsys.glob(p[0]) == sorted(real_glob.glob(p[0])), "the files of one pattern, sorted")
        x.observe(sorted(hits))


def dirs(x):
    path = x.pick("path", ["new", "d", "d/new", "new/deep/er", "f", "f/new", "d/", "d/f/x"])
    with Scratch({"f": "", "d/f": ""}):
        failed = raises(lambda: opsys.makedirs(path), OSError)
        x.prove(failed != os.path.isdir(path), "the directory is there afterwards, or an error says that it is not")
        x.prove(failed == path.startswith(("f", "d/f")), "an error only if a file is in the way")
        x.prove(get("f") == "" and get("d/f") == "", "files are left alone")


def headers(x):
    text, width, char = x.pick("text", ["", "some text", "long " * 30]), x.choice("width", 0, 3), x.pick("char", "=-")
    kw = {}
    if x.flag("options"):
        kw = {"width": width, "char": char}
    else:
        width, char = 80, "="
    f = Buffer()
    got = header(text, f, **kw) if x.flag("to object") else header(text, **kw)
    want = width * char + "\n" + text + "\n" + width * char + "\n\n"
    x.prove(got == want and "".join(f.parts) in ("", want), "the text between two rules")


def jobs(tier):
    deep = tier == "thorough"
    js = {"equals-0": (equals, dict(depth=0, most=0)),
          "equals-1": (equals, dict(depth=1, most=2)),
          "equals-2": (equals, dict(depth=2, most=1)),
          "write-1": (write, dict(depth=1)), "write-2": (write, dict(depth=2)),
          "files": (files, {}), "dirs": (dirs, {}), "headers": (headers, {})}
    if deep:
        js["equals-3"] = (equals, dict(depth=1, most=3))
    return js
