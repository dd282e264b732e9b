# -*- coding: utf-8 -*-
"""C18  evaluation and differences of text alignment"""
import re
from xml.etree.cElementTree import Element
from helpers import *
from scratch import *
from daeso.ptc.document import HitaextDoc
from daeso.ptc import evaluate as m
from daeso.ptc import diff

META = {
    "first": ["counts-id-1-1", "scores", "diff-id-1"],
    "bounds": {"quick": "up to 2 true and 2 predicted links with symbolic ids or numbers (also repeated ones) between the elements evaluated or others; all counts of true, predicted and common alignments (integers) for the scores; reports over up to 2 pairs of corpora; every pair of alignments between 2 source and 2 target elements for the differences, by number and by id, with and without ids, and between elements of two kinds",
               "thorough": "in addition 3 true and 2 predicted links, and 3 source elements for the differences"},
    "outside": "more links; documents that differ in more than their alignment; the layout of reports",
    "assumptions": ["floating-point numbers are taken as reals: rounding is outside the claim"],
}


def links(x, name, n, method, k):
    """symbolic links -> document, list of (counted, from, to)"""
    doc = HitaextDoc()
    out = []
    for i in range(n):
        a, b = x.token("%s%d-from" % (name, i), k), x.token("%s%d-to" % (name, i), k)
        tags = x.pick("%s%d-tags" % (name, i), [("s", "s"), ("s", "p"), ("p", "s")] if i == 0 else [("s", "s"), ("p", "p")])
        e = Element("link", from_tag=tags[0], to_tag=tags[1])
        e.set("from_" + method, a)
        e.set("to_" + method, b)
        doc.get_alignments().append(e)
        out.append((tags == ("s", "s"), a, b))
    return doc, out


def counts(x, n, k, method):
    a, al = links(x, "true", n, method, 3)
    b, bl = links(x, "pred", k, method, 3)
    t, p, c = m.count_alignment(a, b, "s")
    al, bl = [[l[1:] for l in ls if l[0]] for ls in (al, bl)]

    def same(p, q):
        return x.And(x.Eq(p[0], q[0]), x.Eq(p[1], q[1]))

    def member_(p, ls):
        return x.Or(*[same(p, q) for q in ls]) if ls else False

    def types(ls, other=None):
        return count(x, [x.And(x.Not(member_(p, ls[:i])), True if other is None else member_(p, other))
                         for i, p in enumerate(ls)])
    x.prove(x.Eq(t, types(al)), "the number of true alignments")
    x.prove(x.Eq(p, types(bl)), "the number of predicted alignments")
    x.prove(x.Eq(c, types(al, bl)), "the number of common alignments")
    x.observe((t, p, c))


def scores(x):
    t, p, c = x.int("true", 0), x.int("pred", 0), x.int("common", 0)
    x.assume(x.And(x.Le(c, t), x.Le(c, p)))
    ratio, prec, rec, f = m.compute_scores(t, p, c)
    ratio_is_(x, ratio, p, t, "the ratio is predicted / true")
    ratio_is_(x, prec, c, p, "precision is common / predicted")
    ratio_is_(x, rec, c, t, "recall is common / true")
    ratio_is_(x, f, 2 * c, t + p, "F is the harmonic mean of precision and recall")
    for v in (prec, rec, f):
        x.prove(x.And(x.Le(0, v), x.Le(v, 1)), "scores lie between 0 and 1")
    x.observe([ratio, prec, rec])


scores.opts = {"numbers": True}


def ratio_is_(x, value, num, den, msg):
    x.prove(ratio_is(x, value, num, den), msg)


def text(links, method):
    return ("<hitaext><from><filename>from.xml</filename></from><to><filename>to.xml</filename></to><alignment method='%s'>"
            % method + "".join(["<link from_tag='%s' from_%s='%s' to_tag='%s' to_%s='%s'/>" % (
                a, method, i, b, method, j) for a, i, b, j in links]) + "</alignment></hitaext>")


def report(x):
    """the report over files"""
    files, rows = {}, []
    n = x.choice("corpora", 1, 2)
    for k in range(n):
        ls = [[l for l in (("s", 1, "s", 1), ("s", 2, "s", 1), ("p", 1, "p", 1)) if x.flag("%s%d %s" % (c, k, l))]
              for c in ("true", "pred")[:2 if k == 0 else 1]]
        if k:
            ls.append([("s", 1, "s", 1), ("s", 1, "s", 1), ("s", 3, "s", 3)])
        for c, l in zip(("true", "pred"), ls):
            files["%s/c%d.htx" % (c, k)] = text(l, "n")
        a, b = [set([l for l in c if l[0] == "s"]) for c in ls]
        rows.append((len(a), len(b), len(a & b)))
    labels = ["one", "two"][:n] if x.flag("labels") else None
    with Scratch(files):
        with Output() as out:
            m.eval_alignment([("true/c%d.htx" % k, "pred/c%d.htx" % k) for k in range(n)], "s", labels)
    lines = [l.split() for l in out.text.split("\n")]
    lines = [l for l in lines if l and re.match("[0-9]+$", l[0])]
    rows.append(tuple([sum(c) for c in zip(*rows)]))
    x.prove(len(lines) == n + 1, "one line per pair of corpora and one over all")
    for (t, p, c), l, k in zip(rows, lines, range(n + 1)):
        div = lambda a, b: float(a) / b if b else 0.0
        want = [str(t), str(p), str(c)] + ["%.2f" % v for v in (div(p, t), div(c, p), div(c, t), div(2 * c, t + p))]
        x.prove(l[:7] == want, "counts and scores of the line")
        if k < n:
            x.prove(l[7:] == [labels[k] if labels else "c%d.htx" % k], "the label of the line")
    x.observe(lines)


def document(ids, n, side, other):
    s = "".join(["<s%s>%s%d \xc3\xa9</s>" % (" id='i%d'" % (i + 1) if ids else "", side, i + 1) for i in range(n)])
    if other:
        s += "<p%s>%sp</p>" % (" id='i1'" if ids else "", side)
    return "<d>" + s + "</d>"


def differences(x, n, method, ids):
    """what is reported as different"""
    other = n == 1
    cands = [("s", i + 1, "s", j + 1) for i in range(n) for j in range(2)]
    if other:
        cands += [("s", 1, "p", 1), ("p", 1, "s", 1)]
    als = [[l for l in cands if x.flag("%s %s" % (c, l))] for c in ("true", "pred")]
    docs = []
    for c, l in zip(("true", "pred"), als):
        if method == "id":
            l = [(a, "i%d" % i, b, "i%d" % j) for a, i, b, j in l]
        docs.append((c + ".htx", text(l, method)))
    with Scratch(dict(docs + [("from.xml", document(ids, n, "a", other)), ("to.xml", document(ids, 2, "b", other))])):
        with Output() as out:
            diff.print_diff("true.htx", "pred.htx", "s")
    lines = [l for l in out.text.decode("utf-8").split("\n") if l]
    got = []
    for k, head in enumerate(lines[::3]):
        r = re.match(r"#(\d+) (true|predicted) only \((\S+), (\S+)\):?$", head)
        x.prove(r is not None and int(r.group(1)) == k + 1, "differences are numbered")
        a, b = lines[3 * k + 1], lines[3 * k + 2]
        got.append((r.group(2), a, b))
        if ids:
            want = ["i1" if t[1:].startswith("p") else "i" + t[1] for t in (a, b)]
            x.prove([r.group(3), r.group(4)] == want, "differences tell the ids of the elements")

    def of(side, tag, i):
        return u"%s%d \xe9" % (side, i) if tag == "s" else side + "p"
    want = []
    for c, l, o in (("true", als[0], als[1]), ("predicted", als[1], als[0])):
        want += [(c, of("a", *q[:2]), of("b", *q[2:])) for q in l if q not in o and q[0] == "s"]
    x.prove(sorted(got) == sorted(want), "exactly the alignments in one and not in the other, each once")
    x.observe(sorted(got))


def jobs(tier):
    deep = tier == "thorough"
    out = {"scores": (scores, {}), "report": (report, {})}
    for method in ("id", "n"):
        for n in range(4 if deep else 3):
            for k in range(3):
                out["counts-%s-%d-%d" % (method, n, k)] = (counts, dict(n=n, k=k, method=method))
    for method, ids in (("id", True), ("n", True), ("n", False)):
        for n in range(1, 4 if deep else 3):
            out["diff-%s%s-%d" % (method, "" if ids else "-noids", n)] = (differences, dict(n=n, method=method, ids=ids))
    return out
