# -*- coding: utf-8 -*-
"""C12  the report of pgc_diff"""
import re
import xml.etree.cElementTree as et
from helpers import *
from corpora import *
from daeso.pgc import diff as m

META = {
    "first": ["words-1", "report-1"],
    "bounds": {"quick": "one graph pair with up to 2 source and 2 target nodes (and up to two pairs with one of each), every pair of one-to-one alignments, symbolic relations out of 2 (a third outside the relations reported on), every choice of terminal nodes, of identical alignments shown, of comments and of words only",
               "thorough": "in addition 3 source nodes and 2 target nodes, two pairs with 2 + 1 nodes"},
    "outside": "larger graphs; graphs whose nodes have no number or no position (the report is made for Alpino graphs)",
    "assumptions": ["both corpora have the same graph pairs, as required"],
}

RELS = ["t000", "t001", "t002"]
LABELS = {"s": [u"caf\xe9", "N", "V"], "t": ["NP", u"\u20ac", "X"]}


class Out(object):
    def __init__(self):
        self.text = ""

    def write(self, s):
        if isinstance(s, unicode):
            s = s.encode("ascii")
        self.text += s


def make_graph(x, side, gid, n, words):
    g = DaesoGraph(gid, tokens=["tok", side + gid, u"\xe9"], root="0")
    g.add_node("0", "top", ["tok"], {"begin": "0", "end": "9"})
    inner = []
    for i in range(n):
        name = str(i + 1 if i else 10)
        g.add_node(name, LABELS[side][i], [u"w\xf6rd", side + name], {"begin": str(i), "end": str(i + 1)})
        g.add_edge("0", name)
        if words and x.flag("%s%s of %s is inner" % (side, name, gid)):
            g.add_edge(name, "0")
            inner.append(name)
    return g, inner


def names(n):
    return [str(i + 1 if i else 10) for i in range(n)]


def random_align(x, gp, name, n, k, rels):
    """any one-to-one alignment"""
    out, used = [], []
    for i, s in enumerate(names(n)):
        free = [t for t in names(k) if t not in used]
        t = x.pick("%s-%d" % (name, i), [None] + free)
        if t is None:
            continue
        used.append(t)
        r = relation(x, "%s-r%d" % (name, i), rels)
        gp.add_align(Pair(s, t), r)
        out.append((s, t, r))
    return out


BAR = re.compile(r"^([#=-])\1{40,}$")


def parse(x, text):
    """-> list of (title, lines)"""
    lines = text.decode("utf-8").split("\n")
    out = []
    i = 0
    while i < len(lines):
        if BAR.match(lines[i]):
            j = i + 1
            while lines[j] != lines[i]:
                j += 1
            out.append(("\n".join(lines[i + 1:j]), []))
            i = j + 1
        else:
            if lines[i].strip():
                out[-1][1].append(lines[i])
            i += 1
    return out


NODE = re.compile(u'^\\((.*)\\) (.*) \\[(.*):(.*)\\]: "(.*)"$')


def node(x, g, line):
    got = NODE.match(line)
    n = got.group(1)
    x.prove(got.groups()[1:] == (g.node[n]["label"], g.node[n]["begin"], g.node[n]["end"],
                                 " ".join(g.node[n]["tokens"])), "label, position and text of the node")
    return n


def items(x, graphs, lines, number):
    out = []
    for i in range(0, len(lines), 4):
        number += 1
        x.prove(lines[i] == "#%d:" % number, "numbering of the alignments")
        s = node(x, graphs.source, lines[i + 1])
        t = node(x, graphs.target, lines[i + 3])
        rels = re.match("^<<< (.*) / (.*) >>>$", lines[i + 2]).groups()
        out.append((s, t) + tuple([None if r == "NONE" else x.unlabel(r.lower()) for r in rels]))
    return out, number


def report(x, sizes, words, limit, comments=False):
    x.canonical_tokens()
    rels = RELS[:2]
    kwargs = {}
    if limit:
        rels = RELS[:3]
        kwargs["relations"] = RELS[:2]
    words = words and x.flag("words only")
    ident = x.flag("identical alignments shown")
    cs = ParallelGraphCorpus([], rels if not limit else RELS[2:]), ParallelGraphCorpus([], rels)
    todo = []
    for p, (n, k) in enumerate(sizes):
        s, si = make_graph(x, "s", str(p), n, words)
        t, ti = make_graph(x, "t", str(p), k, words)
        al = []
        for c in (0, 1):
            gp = graph_pair(graphs=Pair(s, t))
            al.append(random_align(x, gp, "c%d-p%d" % (c, p), n, k, rels))
            if comments:
                kind = x.pick("comment %d %d" % (c, p), ["none", "empty", "blank", "text"])
                if kind != "none":
                    e = et.SubElement(gp.get_meta_data(), "comment")
                    e.text = {"empty": None, "blank": "  ", "text": u"r\xe9mark"}[kind]
            cs[c].append(gp)
        todo.append((s, t, si, ti, al))
    out = Out()
    m.pgc_diff(cs[0], cs[1], "one.pgc", "two.pgc", "AA", "BB", words_only=words, show_ident=ident,
               show_comments=comments, out=out, **kwargs)
    keep = out.text
    parts = parse(x, keep)
    x.prove(parts[0] == ("AA corpus: one.pgc\nBB corpus: two.pgc", []), "heading of the report")
    parts = parts[1:]
    number = 0
    seen = []
    for p, (s, t, si, ti, (a1, a2)) in enumerate(todo):
        graphs = Pair(s, t)
        x.prove(bool(parts) and parts[0] == ("Graph pair %d" % (p + 1),
                [s.get_graph_token_string() + " ", t.get_graph_token_string() + " "]), "heading of the pair")
        parts.pop(0)
        if comments:
            for c, who in ((0, "AA"), (1, "BB")):
                e = cs[c][p].get_meta_data().find("comment")
                if e is not None and e.text and e.text.strip():
                    x.prove(bool(parts) and parts.pop(0) == ("Comments by " + who, [e.text + " "]), "comments")
        got = {}
        for title in ("Identical", "Relation different", "AA only", "BB only"):
            got[title] = []
            if parts and parts[0][0] == title:
                got[title], number = items(x, graphs, parts.pop(0)[1], number)
                x.prove(len(got[title]) > 0, "no heading without alignments")
                order = [int(i[0]) for i in got[title]]
                x.prove(order == sorted(order), "in the order of the source nodes")
        if words:
            a1 = [a for a in a1 if a[0] not in si or a[1] not in ti]
            a2 = [a for a in a2 if a[0] not in si or a[1] not in ti]
        shown = [g[:2] for t_ in got for g in got[t_]]
        x.prove(len(shown) == len(set(shown)), "every alignment at most once")
        for i in names(len(s) - 1):
            for j in names(len(t) - 1):
                r1 = [a[2] for a in a1 if a[:2] == (i, j)]
                r2 = [a[2] for a in a2 if a[:2] == (i, j)]
                where = [(title, g) for title in got for g in got[title] if g[:2] == (i, j)]
                want = lambda *w: (len(where) == 1 and where[0][0] == w[0] and
                                   len(where[0][1]) == 4 and
                                   x.And(*[(g is None or x.Eq(g, r)) and (g is None) == (r is None)
                                           for g, r in zip(where[0][1][2:], w[1:])]))
                inside = lambda r: x.Or(*[x.Eq(r, q) for q in kwargs.get("relations", rels)])
                if r1 and r2:
                    same = x.Eq(r1[0], r2[0])
                    x.prove(x.Implies(x.And(same, inside(r1[0])),
                                      want("Identical", r1[0], r2[0]) if ident else not where), "identical alignments")
                    x.prove(x.Implies(x.And(x.Not(same), x.Or(inside(r1[0]), inside(r2[0]))),
                                      want("Relation different", r1[0], r2[0])), "other relation")
                    x.prove(x.Implies(x.And(x.Not(inside(r1[0])), x.Not(inside(r2[0]))), not where),
                            "nothing about other relations")
                elif r1:
                    x.prove(x.Implies(inside(r1[0]), want("AA only", r1[0], None)), "only in the first")
                    x.prove(x.Implies(x.Not(inside(r1[0])), not where), "nothing about other relations")
                elif r2:
                    x.prove(x.Implies(inside(r2[0]), want("BB only", None, r2[0])), "only in the second")
                    x.prove(x.Implies(x.Not(inside(r2[0])), not where), "nothing about other relations")
                else:
                    x.prove(not where, "no such alignment")
        seen.append([(title, [g[:2] for g in got[title]]) for title in sorted(got)])
    x.prove(not parts, "nothing else is reported")
    x.observe(seen)


def jobs(tier):
    out = {}
    for n, k in ((1, 1), (2, 1), (1, 2), (2, 2)):
        out["report-%d-%d" % (n, k)] = (report, dict(sizes=[(n, k)], words=False, limit=False))
    out["words-1-1"] = (report, dict(sizes=[(1, 1)], words=True, limit=False))
    out["words-2-1"] = (report, dict(sizes=[(2, 1)], words=True, limit=False))
    out["words-1-2"] = (report, dict(sizes=[(1, 2)], words=True, limit=False))
    out["limit-1-1"] = (report, dict(sizes=[(1, 1)], words=False, limit=True))
    out["limit-2-1"] = (report, dict(sizes=[(2, 1)], words=True, limit=True))
    out["comments"] = (report, dict(sizes=[(1, 1)], words=False, limit=False, comments=True))
    out["pairs-1-1"] = (report, dict(sizes=[(1, 1), (1, 1)], words=False, limit=False))
    if tier == "thorough":
        out["report-3-2"] = (report, dict(sizes=[(3, 2)], words=False, limit=False))
        out["words-2-2"] = (report, dict(sizes=[(2, 2)], words=True, limit=False))
        out["pairs-2-1"] = (report, dict(sizes=[(2, 2), (1, 1)], words=False, limit=False))
    return out
