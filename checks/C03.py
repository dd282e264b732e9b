# -*- coding: utf-8 -*-
"""C03  the list interface of parallel graph corpora"""
import copy
import warnings
import xml.etree.cElementTree as et
from helpers import *
from corpora import *
from daeso.exception import DaesoWarning

warnings.simplefilter("ignore")

META = {
    "bounds": {"quick": "one operation on any corpus of up to 3 graph pairs (which describes every history, as a corpus has no other state than its pairs, relations and meta-data); other corpora of up to 2 pairs; every index and slice bound from -5 to 5 and every step from -3 to 3; symbolic graph ids and relations (up to 2); one operation on a corpus of 12 pairs (indexes and bounds from -14 to 14, another corpus of 11 pairs, of which banks 4 are symbolic)",
               "thorough": "corpora of up to 4 pairs, other corpora of up to 3, bounds -6 to 6"},
    "outside": "longer corpora; the order of corpora (<, >), sort without a key",
    "assumptions": ["elements of the iterable given to the constructor or to extend() are graph pairs, as documented"],
}

RELS = ["r1", "r2"]


def pairs(x, name, n, k=None):
    """graph pairs, with symbolic graph ids if k"""
    if k is None:
        return [graph_pair((name + str(i), name + str(i))) for i in range(n)]
    return [graph_pair((x.token("%s%d" % (name, i), k), "t")) for i in range(n)]


def meta(x):
    m = et.Element("corpus_meta_data")
    m.text = "text"
    return m


def build(x, n, name="p", k=None):
    ps = pairs(x, name, n, k)
    m = meta(x)
    return ParallelGraphCorpus(ps, RELS, m), ps, m


def outcome(fn):
    """what fn() gives or raises"""
    try:
        return ("value", fn())
    except (IndexError, ValueError, TypeError), inst:
        return ("error", inst.__class__)


def ids(seq):
    return [id(p) for p in seq]


def state(x, c, l, m, msg, cls=True):
    """the corpus c holds the pairs in list l, the relations and the meta-data"""
    x.prove(ids(list.__iter__(c)) == ids(l), msg + ": the same pairs")
    x.prove(len(c) == len(l) and ids(c) == ids(l), msg + ": length and iteration")
    if cls:
        x.prove(isinstance(c, ParallelGraphCorpus), msg + ": a corpus")
        x.prove(c.get_relations() == RELS, msg + ": relations are kept")
        x.prove(c.get_meta_data() is m, msg + ": meta-data are kept")


def both(x, msg, c, l, m, f, new=False):
    """f on the corpus and on the list; new: the result is a corpus"""
    a, b = outcome(lambda: f(c)), outcome(lambda: f(l))
    x.prove(a[0] == b[0], msg + ": same outcome")
    if a[0] == "error":
        x.prove(a[1] is b[1], msg + ": same error")
    elif new:
        state(x, a[1], b[1], m, msg)
        x.prove(a[1] is not c, msg + ": a new corpus")
    elif isinstance(b[1], list):
        state(x, a[1], b[1], m, msg)
    else:
        x.prove(a[1] is b[1] or a[1] == b[1], msg + ": same value")
    state(x, c, l, m, msg + ", afterwards")
    x.observe(len(c))


def index(x, n, r):
    c, l, m = build(x, n)
    l = list(l)
    i = x.choice("i", -r, r)
    op = x.pick("operation", ["get", "set", "del", "insert", "pop"])
    p = graph_pair(("new", "new"))

    def setitem(s):
        s[i] = p

    def delitem(s):
        del s[i]
    f = {"get": lambda s: s[i], "set": setitem, "del": delitem,
         "insert": lambda s: s.insert(i, p), "pop": lambda s: s.pop(i)}[op]
    both(x, op, c, l, m, f)


def slices(x, n, k, r, op, wide=False):
    c, l, m = build(x, n)
    l = list(l)
    o, q, om = build(x, k, "q")
    form = x.pick("form", ["i:j", "i:", ":j"] if wide else ["i:j", "i:", ":j", ":", "i:j:k"])
    i = x.choice("i", -r, r) if "i" in form else None
    j = x.choice("j", -r, r) if "j" in form else None
    s = x.choice("step", -3, 3) if "k" in form else None
    vals = {id(c): o, id(l): list(q)}

    def get(t):
        if form == "i:j":
            return t[i:j]
        if form == "i:":
            return t[i:]
        if form == ":j":
            return t[:j]
        if form == ":":
            return t[:]
        return t[i:j:s]

    def put(t):
        v = vals[id(t)]
        if form == "i:j":
            t[i:j] = v
        elif form == "i:":
            t[i:] = v
        elif form == ":j":
            t[:j] = v
        elif form == ":":
            t[:] = v
        else:
            t[i:j:s] = v

    def delete(t):
        if form == "i:j":
            del t[i:j]
        elif form == "i:":
            del t[i:]
        elif form == ":j":
            del t[:j]
        elif form == ":":
            del t[:]
        else:
            del t[i:j:s]
    f = {"get": get, "set": put, "del": delete}[op]
    both(x, op + " slice", c, l, m, f, new=op == "get")
    state(x, o, q, om, "the other corpus")


def whole(x, n, k):
    c, l, m = build(x, n)
    l = list(l)
    o, q, om = build(x, k, "q")
    p = graph_pair(("new", "new"))
    op = x.pick("operation", ["append", "extend", "extend-generator", "+", "+=", "reverse", "reversed", "pop", "clear",
                              "*", "rmul", "*=", "sort", "iter", "copy"])
    t = x.choice("times", -1, 3) if op in ("*", "rmul", "*=") else 0
    keep = list(l)
    if op == "append":
        f = lambda s: s.append(p)
    elif op == "extend":
        f = lambda s: s.extend(o if s is c else q)
    elif op == "extend-generator":
        f = lambda s: s.extend(e for e in list(q))
    elif op == "+":
        f = lambda s: s + (o if s is c else q)
    elif op == "+=":
        def f(s):
            before = s
            s += (o if s is c else q)
            x.prove(s is before, "+= changes the corpus itself")
    elif op == "reverse":
        f = lambda s: s.reverse()
    elif op == "reversed":
        f = lambda s: None
        x.prove(ids(reversed(c)) == ids(reversed(l)), "reversed iteration")
    elif op == "pop":
        f = lambda s: s.pop()
    elif op == "clear":
        def f(s):
            if s is c:
                s.clear()
            else:
                del s[:]
    elif op == "*":
        f = lambda s: s * t
    elif op == "rmul":
        f = lambda s: t * s
    elif op == "*=":
        def f(s):
            before = s
            s *= t
            x.prove(s is before, "*= changes the corpus itself")
    elif op == "sort":
        order = dict([(id(e), x.int("key%d" % i) if n < 5 or i % 6 == 5 else i * i % 13)
                      for i, e in enumerate(keep)])
        rev = x.flag("reverse")
        f = lambda s: s.sort(key=lambda e: order[id(e)], reverse=bool(rev))
    elif op == "iter":
        f = lambda s: tuple([id(e) for e in s])
    else:
        f = lambda s: s[:]
    both(x, op, c, l, m, f, new=op in ("+", "*", "rmul", "copy"))
    if o is not c:
        state(x, o, q, om, "the other corpus")


def search(x, n, wide=False):
    """operations which compare pairs"""
    x.canonical_tokens()
    if wide:
        # graphs of given ids, of which two are the same
        l, m = [graph_pair((x.symbol(i % (n - 1)), "t")) for i in range(n)], meta(x)
        c = ParallelGraphCorpus(l, RELS, m)
    else:
        c, l, m = build(x, n, k=n + 1)
        l = list(l)
    p = graph_pair((x.token("wanted", n + 1), "t"))
    same = [x.Eq(p.get_source_graph().id, e.get_source_graph().id) for e in l]
    op = x.pick("operation", ["in", "index", "count", "remove"])
    if op == "in":
        x.prove(x.Eq(p in c, x.Or(*same) if same else False), "membership")
    elif op == "count":
        x.prove(x.Eq(c.count(p), count(x, same)), "number of occurrences")
    else:
        found = None
        try:
            if op == "index":
                found = c.index(p)
            else:
                c.remove(p)
                found = [i for i in range(len(l)) if ids(c) == ids(l[:i] + l[i + 1:])][:1]
                x.prove(len(found) == 1, "one pair is removed")
                found = found[0]
                l = l[:found] + l[found + 1:]
        except ValueError:
            x.prove(x.Not(x.Or(*same)) if same else True, op + ": no such pair")
        if found is not None:
            x.prove(x.And(same[found], *[x.Not(s) for s in same[:found]]), op + ": the first such pair")
    state(x, c, l, m, op)


def compare(x, n, k):
    x.canonical_tokens()
    kinds = [None, "a", "b"]

    def make(name, size):
        rels = [x.token("%s-rel%d" % (name, i), 3) for i in range(x.choice(name + "-relations", 0, 2))]
        kind = x.pick(name + "-meta", kinds)
        m = None
        if kind:
            m = et.Element("corpus_meta_data")
            m.text = kind
        ps = pairs(x, name, size, 3)
        return ParallelGraphCorpus(ps, rels, m), ps, rels, kind
    a, p, r, u = make("a", n)
    b, q, s, v = make("b", k)
    perm = x.Or(*[same_seq(x, r, t) for t in ([s] if len(s) < 2 else [s, s[::-1]])])
    equal = x.And(n == k, len(r) == len(s), perm, u == v,
                  *[x.Eq(e.get_source_graph().id, f.get_source_graph().id) for e, f in zip(p, q)])
    eq, ne = bool(a == b), bool(a != b)
    x.prove(x.Eq(equal, eq), "corpora are equal exactly when relations, meta-data and pairs are")
    x.prove(ne == (not eq), "!= is the negation of ==")
    x.prove(bool(b == a) == eq and bool(b != a) == ne, "equality is symmetric")
    x.prove(a == a and not a != a, "a corpus equals itself")
    x.prove(not a == p and not a == None and a != None, "a corpus equals no other object")
    x.observe(eq)


def relations(x, n, k):
    """corpora with other relations are rejected, without any change"""
    x.canonical_tokens()
    r = [x.token("a-rel%d" % i, n + k) for i in range(n)]
    s = [x.token("b-rel%d" % i, n + k) for i in range(k)]
    keep = list(r)
    p, q = pairs(x, "p", 2), pairs(x, "q", 1)
    a, b = ParallelGraphCorpus(p, r), ParallelGraphCorpus(q, s)
    x.prove(r is not a.get_relations() and len(r) == len(keep) and all([f is g for f, g in zip(r, keep)]),
            "the caller's list of relations is left alone")
    sr, ss = a.get_relations(), b.get_relations()
    x.prove(len(sr) == n and len(ss) == k, "the relations are kept")
    for f in r:
        x.prove(x.Eq(count(x, [x.Eq(f, g) for g in sr]), count(x, [x.Eq(f, g) for g in r])), "the relations are kept")
    for f, g in zip(sr, sr[1:]):
        x.prove(f <= g, "the relations are sorted")
    same = same_seq(x, sr, ss)
    op = x.pick("operation", ["+", "+=", "set", "setslice"])

    def f():
        if op == "+":
            return a + b
        t = a
        if op == "+=":
            t += b
        elif op == "set":
            t[0:1:1] = b
        else:
            t[1:] = b
    bad = raises(f, ValueError)
    x.prove(x.Eq(same, not bad), "other relations are rejected")
    if bad:
        x.prove(ids(a) == ids(p) and ids(b) == ids(q), "a rejected corpus changes nothing")
    x.prove(a.get_relations() is sr, "the relations stay")


def types(x, n):
    """anything but a graph pair is rejected, without any change"""
    c, l, m = build(x, n)
    l = list(l)
    bad = x.pick("value", [None, 1, "x", (1, 2), [], GraphBank("/nonexistent/s", "graphml"), "list", "corpus"])
    if isinstance(bad, str) and bad == "list":
        bad = pairs(x, "q", 1)
    elif isinstance(bad, str) and bad == "corpus":
        bad = build(x, 1, "q")[0]
    op = x.pick("operation", ["append", "insert", "set", "+", "+=", "setslice", "ext"])
    i = x.choice("i", -n, n - 1)

    def f():
        t = c
        if op == "append":
            c.append(bad)
        elif op == "insert":
            c.insert(i, bad)
        elif op == "set":
            t[i] = bad
        elif op == "+":
            c + bad
        elif op == "+=":
            t += bad
        elif op == "setslice":
            t[i:] = bad
        else:
            t[i:n:1] = bad
    if isinstance(bad, ParallelGraphCorpus) and op in ("+", "+=", "setslice", "ext"):
        return
    x.prove(raises(f, TypeError), op + " rejects what is no graph pair or corpus")
    state(x, c, l, m, op)


def deep(x, n):
    x.canonical_tokens()
    c, l, m = build(x, n)
    for i, p in enumerate(l):
        p.add_align(Pair(x.token("s%d" % i, 3), x.token("t%d" % i, 3)), RELS[0])
    d = copy.deepcopy(c)
    x.prove(d == c and not d != c and d.__class__ is c.__class__, "a copy is equal")
    x.prove(d is not c and d.get_meta_data() is not m and d.get_relations() is not c.get_relations(),
            "a copy is independent")
    x.prove(not set(ids(d)) & set(ids(c)), "pairs are copied")
    for p, q in zip(c, d):
        x.prove(p.get_source_graph() is q.get_source_graph() and p.get_target_graph() is q.get_target_graph() and
                p.get_source_bank() is q.get_source_bank() and p.get_target_bank() is q.get_target_bank(),
                "graphs and banks are shared")
    edit, other = (c, d) if x.flag("edit the original") else (d, c)
    what = x.pick("edit", ["meta", "relations", "pop", "align", "append"])
    if what == "meta":
        edit.get_meta_data().text = "other"
        x.prove(other.get_meta_data().text == "text", "meta-data are independent")
    elif what == "relations":
        edit.get_relations().append("r3")
        x.prove(other.get_relations() == RELS, "relations are independent")
    elif what == "append":
        edit.append(graph_pair())
        x.prove(len(other) == n, "pairs are independent")
    elif what == "pop":
        edit.pop()
        x.prove(len(other) == n, "pairs are independent")
    else:
        i = x.choice("which", 0, n - 1)
        edit[i].add_align(Pair("new", "new"), RELS[1])
        x.prove(len(other[i]) == 1 and other[i].get_align(Pair("new", "new")) is None, "alignments are independent")
    x.prove(not edit == other and edit != other, "an edited copy differs")


def purge(x, n, limited, free=None):
    """duplicate banks are shared afterwards, nothing else changes"""
    files = ["/nonexistent/a", "/nonexistent/b", "/nonexistent/c"]
    ps, paths, aligned = [], [], []
    shared = GraphBank(files[0], "graphml")
    for i in range(n):
        if free is None or i >= n - free:
            f = x.pick("source bank %d" % i, files), x.pick("target bank %d" % i, files)
        else:
            f = "/nonexistent/x%d" % (i % 11), "/nonexistent/y%d" % i
        banks = [shared if g == files[0] and x.flag("same object %d %d" % (i, j)) else GraphBank(g, "graphml")
                 for j, g in enumerate(f)]
        p = graph_pair((str(i), str(i)), banks=Pair(*banks))
        if (free is not None or x.flag("aligned %d" % i)):
            p.add_align(Pair("1", "2"), "r1")
        aligned.append(len(p))
        ps.append(p)
        paths.append(f)
    c = ParallelGraphCorpus(ps, RELS)
    old = [tuple(p.get_banks()) for p in ps]
    if limited:
        w = x.choice("which", 0, n - 1)
        c.purge(ps[w])
        todo = [w]
    else:
        c.purge()
        todo = range(n)
    x.prove(ids(c) == ids(ps), "the pairs stay")
    seen = {}
    for i, p in enumerate(ps):
        b = p.get_banks()
        x.prove((b.source.get_file_path(), b.target.get_file_path()) == paths[i], "every bank keeps its file")
        x.prove(len(p) == aligned[i], "alignments stay")
        if i not in todo:
            x.prove(b.source is old[i][0] and b.target is old[i][1], "other pairs keep their banks")
            continue
        for bank in (b.source, b.target):
            x.prove(seen.setdefault(bank.get_file_path(), bank) is bank, "one bank for every file")


def jobs(tier):
    out = {}
    deepr = tier == "thorough"
    N, K, r = (4, 3, 6) if deepr else (3, 2, 5)
    for n in range(N + 1):
        out["index-%d" % n] = (index, dict(n=n, r=r))
        for op in ("get", "set", "del"):
            for k in (range(K + 1) if op == "set" else [0]):
                out["slices-%s-%d-%d" % (op, n, k)] = (slices, dict(n=n, k=k, r=r, op=op))
        for k in range(K + 1):
            out["whole-%d-%d" % (n, k)] = (whole, dict(n=n, k=k))
        out["search-%d" % n] = (search, dict(n=n))
    for n in range(K + 1):
        for k in range(K + 1):
            out["relations-%d-%d" % (n, k)] = (relations, dict(n=n, k=k))
            if n + k < 4 or deepr:
                out["compare-%d-%d" % (n, k)] = (compare, dict(n=n, k=k))
    out["index-12"] = (index, dict(n=12, r=14))
    out["search-12"] = (search, dict(n=12, wide=True))
    out["whole-12"] = (whole, dict(n=12, k=11))
    out["purge-12"] = (purge, dict(n=12, limited=False, free=2))
    for op in ("get", "set", "del"):
        out["slices-wide-" + op] = (slices, dict(n=12, k=3, r=14, op=op, wide=True))
    for n in (1, 2):
        out["types-%d" % n] = (types, dict(n=n))
        out["deep-%d" % n] = (deep, dict(n=n))
    out["purge-2"] = (purge, dict(n=2, limited=False))
    out["purge-2-limited"] = (purge, dict(n=2, limited=True))
    if deepr:
        out["purge-3"] = (purge, dict(n=3, limited=False))
    return out
