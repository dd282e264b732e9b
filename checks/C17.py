# -*- coding: utf-8 -*-
"""C17  automatic text alignment"""
import math
import sys
import types
from StringIO import StringIO
from helpers import *
from scratch import *

# the lists of Dutch stop words are in another package, which is not at hand
for _name in ("daeso_nl", "daeso_nl.string", "daeso_nl.string.stopword"):
    if _name not in sys.modules:
        sys.modules[_name] = types.ModuleType(_name)
sys.modules["daeso_nl"].string = sys.modules["daeso_nl.string"]
sys.modules["daeso_nl.string"].stopword = sys.modules["daeso_nl.string.stopword"]
if not hasattr(sys.modules["daeso_nl.string.stopword"], "remove_stopwords"):
    sys.modules["daeso_nl.string.stopword"].remove_stopwords = lambda tokens, **kw: tokens

from daeso.pair import Pair
from daeso.ptc import textalign as m
from daeso.ptc.document import HitaextDoc
from daeso.ptc.ielemtree import IndexElemTree

META = {
    "first": ["scores-none", "scores-threshold", "scope"],
    "bounds": {"quick": "two source and two target sentences per scope with arbitrary real scores and thresholds -1, 0, 0.5 and 2, for every filter; three source and one target sentence; two scopes aligned in every way, with sentences outside, ignored and in part, every choice of earlier alignments, with and without clearing, twice with the same trees; up to 3 tokens out of 4 for the terms; weights of 2 terms; sequences of up to 3 terms for the measures, up to 3 elements of at most 2 terms for the tf*idf weights",
               "thorough": "in addition 3 by 2 sentences with arbitrary scores"},
    "outside": "more sentences; nested scopes; removal of stop words (done by another package); rounding",
    "assumptions": ["floating-point numbers are taken as reals"],
}


def doc_of(links, method="n"):
    doc = HitaextDoc()
    doc.set_filename("from", "from.xml")
    doc.set_filename("to", "to.xml")
    for ft, fn, tt, tn in links:
        doc.add_n_alignment(ft, fn, tt, tn)
    return doc


def links(doc):
    return sorted([tuple([e.get(k) for k in ("from_tag", "from_n", "to_tag", "to_n")]) for e in doc.get_alignments()])


def lnk(a, i, b, j):
    return (a, str(i), b, str(j))


def fresh_trees(source, target):
    out = Pair(IndexElemTree(StringIO(source)), IndexElemTree(StringIO(target)))
    for t in out:
        t.update()
    return out


def scored(rows, cols):
    source = "<d>" + "".join(["<s>a%d</s>" % i for i in range(rows)]) + "</d>"
    target = "<d>" + "".join(["<t>b%d</t>" % i for i in range(cols)]) + "</d>"
    return source, target


def scores(x, rows, cols, kind):
    source, target = scored(rows, cols)
    value = dict([((i, j), x.real("score%d-%d" % (i, j))) for i in range(rows) for j in range(cols)])
    limit = x.pick("threshold", [0.5, -1, 2, 0])
    asked = []

    def sim(a, b, va, vb):
        i, j = int(a[1:]), int(b[1:])
        asked.append((i, j))
        x.prove(va == "w" + a and vb == "w" + b, "weights belong to their terms")
        return value[i, j]
    if kind == "none":
        filter_func = None
    else:
        make = {"threshold": m.threshold_filter_factory, "cross": m.no_cross_filter_factory}[kind]
        filter_func = make(limit)
    aligner = m.TextAligner(Pair("s", "t"), term_func=lambda text: text,
                            weight_func=lambda terms: ["w" + t for t in terms],
                            sim_func=sim, filter_func=filter_func)
    doc = doc_of([])
    aligner.align_corpus(doc, fresh_trees(source, target))
    x.prove(sorted(asked) == sorted(value), "every pair of sentences is compared once")
    got = [(int(l[1]) - 1, int(l[3]) - 1) for l in links(doc) if (l[0], l[2]) == ("s", "t")]
    x.prove(len(set(got)) == len(got), "every pair is aligned once")
    x.prove(len([l for l in links(doc) if (l[0], l[2]) != ("s", "t")]) <= 1, "nothing else is aligned (but the roots)")
    for p in value:
        above = {"none": True, "threshold": x.Lt(limit, value[p]), "cross": x.Le(limit, value[p])}[kind]
        if p in got:
            x.prove(above, "only pairs above the threshold are aligned")
            if kind == "cross":
                x.prove(not [q for q in got if crossing(p, q)], "alignments do not cross")
        elif kind == "cross":
            better = [x.Le(value[p], value[q]) for q in got if crossing(p, q)]
            x.prove(x.Or(x.Not(above), *better), "a pair is left out only for a better one it crosses")
        else:
            x.prove(x.Not(above), "every pair above the threshold is aligned")
    x.observe(None)


scores.opts = {"numbers": True}


def crossing(p, q):
    return (p[0] - q[0]) * (p[1] - q[1]) < 0


SOURCE = "<d><p><s>a</s><s>b</s></p><p><n><s>c</s></n></p><h><s>d</s></h></d>"
TARGET = "<d><q><s>a</s></q><q><x><n><s>b</s></n></x><s>c</s></q><s>d</s></d>"
S_IN = {1: [1, 2], 2: [3]}
T_IN = {1: [1], 2: [2, 3]}
S_IGN, T_IGN = [3], [2]
DEEP = {("s", "s"): False, ("p", "q"): True, ("h", "s"): False, ("d", "d"): True}


def scope(x, part):
    """only sentences within aligned scopes, and not ignored ones; what was aligned before"""
    old = []
    ps = [(i, j) for i in (1, 2) for j in (1, 2) if (i == j or part != "old") and x.flag("scopes %d-%d" % (i, j))]
    for i, j in ps:
        old.append(lnk("p", i, "q", j))
    clear = True
    again = False
    if part == "old":
        for l in (lnk("s", 1, "s", 4), lnk("s", 1, "s", 1), lnk("h", 1, "s", 1), lnk("p", 1, "d", 1), lnk("s", 3, "q", 1)):
            if x.flag("-".join(l)):
                old.append(l)
        clear = x.pick("clear", [None, True, False])
        again = x.flag("twice")
    ign = Pair([], [])
    if part == "ignore":
        ign = Pair(["n"] if x.flag("ignore source") else [], ["x"] if x.flag("ignore target") else [])
    aligner = m.TextAligner(Pair("s", "s"), Pair(["p"], ["q"]), ign if part == "ignore" else None,
                            term_func=lambda text: text, sim_func=lambda a, b, *w: 1.0,
                            filter_func=m.threshold_filter_factory(0.5))
    doc = doc_of(old)
    kw = {} if clear is None else {"clear": clear}
    with Scratch({"from.xml": SOURCE, "to.xml": TARGET}):
        aligner.align_corpus(doc, **kw)
    new = set()
    for i, j in ps:
        for s in S_IN[i]:
            for t in T_IN[j]:
                if (s in S_IGN and ign.source) or (t in T_IGN and ign.target):
                    continue
                new.add(lnk("s", s, "s", t))
    kept = [l for l in old if clear is False or (l[0] != "s" and l[2] != "s")]
    want = sorted(set(kept) | new)
    x.prove(links(doc) == want,
            "exactly the sentences in aligned scopes that are not ignored are aligned, other alignments stay, earlier ones are cleared")
    if again:
        # with trees read before
        other = doc_of(old)
        trees = fresh_trees(SOURCE, TARGET)
        other.inject_alignments(*trees)
        for i in range(2):
            aligner.align_corpus(other, doc_trees=trees, **kw)
            x.prove(links(other) == want, "the same with trees read before")
            if clear is not False:
                for t in trees.target.getiterator("s"):
                    for e in t.get("_alignments", []):
                        x.prove(lnk(e.tag, e.get("_n"), "s", t.get("_n")) in want, "no earlier alignment is left in the trees")
    x.observe(links(doc))


def roots(x):
    """without scope tags the whole documents are compared"""
    old = [l for l in (lnk("p", 1, "q", 1), lnk("s", 1, "s", 2), lnk("p", 2, "q", 1), lnk("d", 1, "q", 2), lnk("d", 1, "d", 1)) if x.flag("-".join(l))]
    doc = doc_of(old)
    keep = dict([((i, j), x.flag("keep %d-%d" % (i, j))) for i in (1, 2) for j in (1, 4)])
    aligner = m.TextAligner(Pair("s", "s"), term_func=lambda text: text,
                            sim_func=lambda a, b, *w: float(keep.get(("abcd".index(a) + 1, "abcd".index(b) + 1), False)),
                            filter_func=m.threshold_filter_factory(0.5))
    with Scratch({"from.xml": SOURCE, "to.xml": TARGET}):
        aligner.align_corpus(doc)
    want = [lnk("s", i, "s", j) for (i, j), k in keep.items() if k] + [l for l in old if l[0] != "s"]
    root = lnk("d", 1, "d", 1)
    got = links(doc)
    if root not in old and root in got:
        got.remove(root)
    x.prove(got == sorted(want), "sentences anywhere are aligned, other alignments stay")
    x.observe(links(doc))


TOKENS = ["A", "b", ".", "Bb", "(", "C,"]
PUNC = [".", "("]


def terms(x, n, k):
    toks = [x.pick("token%d" % i, TOKENS) for i in range(n)]
    text = x.pick("blank", ["", " "]) + "  ".join(toks)

    def grams(seq):
        return [" ".join(seq[i:i + k]) for i in range(len(seq) - k + 1)]

    def norm(g):
        return [" ".join(t) if not isinstance(t, (str, unicode)) else t for t in g]
    x.prove(norm(m.word_n_gram_factory(k)(text)) == grams(toks), "the n-grams of words")
    low = [t.lower() for t in toks if t not in PUNC]
    x.prove(norm(m.preproc_word_n_gram_factory(k)(text)) == grams(low), "the n-grams of lower case words, without punctuation")
    x.prove([g.replace(" ", "") for g in m.char_n_gram_factory(k)("".join(toks))] ==
            ["".join(toks)[i:i + k] for i in range(len("".join(toks)) - k + 1)], "the n-grams of characters")
    x.observe(norm(m.word_n_gram_factory(k)(text)))


def cosine(x, n):
    a, b = [[x.real("%s%d" % (s, i), 0, 100) for i in range(n)] for s in "ab"]
    c = m.weighted_cosine_sim(None, None, a, b)
    dot = x.Sum([p * q for p, q in zip(a, b)])
    la, lb = x.Sum([p * p for p in a]), x.Sum([q * q for q in b])
    x.prove(x.Close(c * c * la * lb, dot * dot), "the cosine by its definition")
    x.prove(x.Le(0, c), "the cosine is not negative")
    x.prove(x.ite(x.Or(x.Eq(la, 0), x.Eq(lb, 0)), x.Eq(c, 0), x.Le(c * c * la * lb, la * lb)), "the cosine is at most 1")
    x.prove(x.Close(m.weighted_cosine_sim(None, None, b, a), c), "the cosine is symmetric")


def equal(x):
    a, b = [tokens(x, s, 2, 3) for s in "ab"]
    e = m.equals_sim(a, b)
    x.prove(e == (1 if x.fork(same_seq(x, a, b)) else 0), "1 for the same terms, else 0")
    x.prove(m.no_weight([a, b, a]) == [None] * 3, "no weights")
    x.observe(e)


def measures(x, n, k):
    """the similarity functions for terms, by their definitions"""
    a, b = [list(tokens(x, s, l, n + k)) for s, l in (("a", n), ("b", k))]
    common = n_common_types(x, a, b)
    t = 0
    while not x.flag_eq(common, t):
        t += 1
    types = n_types(x, a + b)
    u = 0
    while not x.flag_eq(types, u):
        u += 1
    x.prove(m.type_match_sim(a, b) == t, "the number of common terms")
    for name, den in (("jaccard", u), ("dice", (n + k) / 2.0), ("cosine", (n * k) ** 0.5), ("tanimoto", n + k - t),
                      ("overlap_min", min(n, k)), ("overlap_max", max(n, k))):
        v = getattr(m, name + "_sim")(a, b)
        x.prove(abs(v * den - t) <= 1e-9 if den else v == 0, name + " of terms")
    x.observe(t, u)


def indicators(x, shape):
    """cosines of tf*idf indicator weights; only occurrence matters, not frequency"""
    names = ["a", "b", "c"]
    docs = [[x.pick("term%d-%d" % (i, j), names) for j in range(n)] for i, n in enumerate(shape)]
    w = m.tf_idf_indicator_weight([list(d) for d in docs])
    x.prove(len(w) == len(docs), "weights for every element")
    df = dict([(t, len([d for d in docs if t in d])) for t in names])
    idf = dict([(t, math.log(len(docs) / float(df[t])) if df[t] else 0.0) for t in names])
    for i, d in enumerate(docs):
        for j, e in enumerate(docs):
            dot = sum([idf[t] ** 2 for t in names if t in d and t in e])
            p, q = [sum([idf[t] ** 2 for t in names if t in y]) for y in (d, e)]
            want = dot / math.sqrt(p * q) if p and q else 0.0
            x.prove(abs(m.weighted_cosine_sim(d, e, w[i], w[j]) - want) <= 1e-9,
                    "the cosine of the weights of the terms that occur in both")
    x.observe([[round(v, 6) for v in sorted(r)] for r in w])


def jobs(tier):
    out = {"roots": (roots, {}), "equal": (equal, {}), "cosine-1": (cosine, dict(n=1)), "cosine-2": (cosine, dict(n=2))}
    for kind in ("none", "threshold", "cross"):
        out["scores-" + kind] = (scores, dict(rows=2, cols=2, kind=kind))
        out["scores-%s-wide" % kind] = (scores, dict(rows=1, cols=3, kind=kind))
        if tier == "thorough":
            out["scores-%s-3-2" % kind] = (scores, dict(rows=3, cols=2, kind=kind))
    for part in ("plain", "old", "ignore"):
        out["scope" if part == "plain" else "scope-" + part] = (scope, dict(part=part))
    for n, k in [(0, 0), (0, 1), (1, 1), (2, 1), (2, 2), (1, 3)]:
        out["measures-%d-%d" % (n, k)] = (measures, dict(n=n, k=k))
    for shape in [(0, 1), (1, 2), (2, 2), (1, 2, 1)]:
        out["indicators-" + "-".join(map(str, shape))] = (indicators, dict(shape=shape))
    for k in (1, 2):
        for n in range(0, 4):
            out["terms-%d-%d" % (n, k)] = (terms, dict(n=n, k=k))
    return out
