# -*- coding: utf-8 -*-
"""C06  parsing of GraphML graph banks"""
from helpers import *
from xmlevents import Doc, fake_expat
import daeso.gb.parser
from daeso.exception import DaesoError
from daeso.gb.graphml import GraphmlParser

META = {
    "bounds": {"quick": "documents of up to 2 graphs with up to 3 nodes, up to 3 edges and up to 4 data elements on each; names of nodes, graphs, keys and values symbolic; every order of data elements and places of the graph's own data; key tables of up to 3 keys of every domain with and without defaults; up to 2 wanted graph ids",
               "thorough": "up to 3 graphs, 3 keys, 4 nodes"},
    "outside": "nested graphs, ports, hyperedges; documents the parser rejects other than for missing attributes",
    "assumptions": ["nodes precede the edges that refer to them and node ids of a graph differ",
                    "symbolic values reach the handlers through a stand-in for expat; sampled paths are replayed with real XML text through the real expat",
                    "no two keys of the same domain have the same name or the same id"],
}


def header(d, root=True):
    d.start("graphml")
    d.elem("key", {"id": "k-gt", "for": "graph", "attr.name": "tokens"})
    d.elem("key", {"id": "k-r", "for": "graph", "attr.name": "root"})
    d.elem("key", {"id": "k-l", "for": "all", "attr.name": "label", "attr.type": "string"})
    d.elem("key", {"id": "k-t", "for": "node", "attr.name": "tokens"})
    d.elem("key", {"id": "k-x", "attr.name": "extra"})
    return d


def data(d, key, *value):
    return d.elem("data", {"key": key}, *value)


def parse(x, d, wanted=None, how="file", cut=0):
    """-> id -> graph"""
    table = None if wanted is None else dict.fromkeys(wanted)
    kw = {} if wanted is None else dict(sparse=True)
    with fake_expat(x):
        p = GraphmlParser()
        if how == "file":
            return p.parse_file(d.file(x), table, **kw)
        if how == "string":
            out = p.parse_string(d.string(x), table, **kw)
        else:
            a, b = d.cut(x, cut)
            out = {} if table is None else table
            p.parse_string(a, out, **kw)
            p.parse_string(b, out, **kw)
        p.close()
        return out


def node(x, d, name, label, tokens, order, extra=None):
    d.start("node", id=name)
    parts = [("k-l", [label]), ("k-t", tokens)]
    if order:
        parts.reverse()
    if extra is not None:
        parts.insert(order, ("k-x", [extra]))
    for k, v in parts:
        data(d, k, *v)
    d.end("node")


def check_node(x, g, n, label, tokens, extra, msg="node"):
    x.prove(x.Eq(g.node[n]["label"], label), msg + ": label")
    got = g.get_node_tokens(n)
    x.prove(len(got) == len(tokens) and x.fork(same_seq(x, got, tokens)), msg + ": tokens")
    if extra is None:
        x.prove("extra" not in g.node[n], msg + ": no data of others")
    else:
        x.prove(x.Eq(g.node[n]["extra"], extra), msg + ": data")


def one_graph(x, n, m):
    """nodes, edges and data of one graph"""
    x.canonical_tokens()
    d = header(Doc())
    d.start("graph", id="g1", edgedefault="directed")
    small = n + m < 2
    if small:
        place = [x.choice("place of %s" % k, 0, 3) for k in ("tokens", "root", "extra")]
    else:
        place = [x.choice("place", 0, 3)] * 3
    root = x.flag("root")
    gx = x.flag("graph extra") if small else root
    names = tokens(x, "node", n, n)
    for i in range(n):
        for j in range(i):
            x.assume(x.Not(x.Eq(names[i], names[j])))
    labels, extras = tokens(x, "label", n, 4), tokens(x, "extra", n, 4)
    rootname = x.token("rootname", 4)

    def graph_data(where):
        if place[0] == where:
            data(d, "k-gt", "one ", "two")
        if root and place[1] == where:
            data(d, "k-r", rootname)
        if gx and place[2] == where:
            data(d, "k-x", "graph's")

    graph_data(0)
    has = [bool(x.flag("extra%d" % i)) if i == 0 else i == 2 for i in range(n)]
    order = [x.choice("order%d" % i, 0, 1) for i in range(min(n, 1))] + [0, 1, 0]
    for i in range(n):
        node(x, d, names[i], labels[i], ["w%d" % i, " x"], order[i], extras[i] if has[i] else None)
        if i == 0:
            graph_data(1)
    graph_data(2)
    edges = []
    for i in range(m):
        u, v = x.pick("u%d" % i, range(n)), x.pick("v%d" % i, range(n))
        x.assume((u, v) not in [e[:2] for e in edges])
        l = x.token("elabel%d" % i, 4)
        has_l, has_x = bool(x.flag("edge label%d" % i)) if i == 0 else i == 2, i == 1
        d.start("edge", source=names[u], target=names[v])
        if has_l:
            data(d, "k-l", l)
        if has_x:
            data(d, "k-x", "edge's")
        d.end("edge")
        edges.append((u, v, l if has_l else None, "edge's" if has_x else None))
    graph_data(3)
    d.end("graph").end("graphml")
    x.assume(n or (place[0] != 1 and place[1] != 1 and place[2] != 1))
    got = parse(x, d)
    x.prove(got.keys() == ["g1"], "the graphs of the document")
    g = got["g1"]
    x.prove(g.id == "g1", "graph id")
    x.prove(g.tokens == ["one", "two"], "tokens of the graph")
    x.prove(x.Eq(g.root, rootname) if root else g.root is None, "root of the graph")
    if gx:
        x.prove(g.graph.get("extra") == "graph's", "data of the graph")
    else:
        x.prove("extra" not in g.graph, "data of nodes and edges is not the graph's")
    x.prove("label" not in g.graph, "data of nodes and edges is not the graph's")
    x.prove(g.number_of_nodes() == n and g.number_of_edges() == m, "number of nodes and edges")
    for i in range(n):
        check_node(x, g, names[i], labels[i], ["w%d" % i, "x"], extras[i] if has[i] else None)
        out = [e for e in edges if e[0] == i]
        x.prove(same_seq(x, g.successors(names[i]), [names[e[1]] for e in out]), "edges in document order")
        into = [e for e in edges if e[1] == i]
        x.prove(same_seq(x, g.predecessors(names[i]), [names[e[0]] for e in into]), "edges in document order")
    for u, v, l, e in edges:
        a = g[names[u]][names[v]]
        x.prove(a["label"] is None if l is None else x.Eq(a["label"], l), "label of the edge")
        x.prove(a.get("extra") == e, "data of the edge")
    x.observe(g.tokens, g.root, [g.node[k]["label"] for k in names])


DOMAINS = ["graph", "node", "edge", "all", None]


def keys(x, domains):
    """the key table and its defaults"""
    x.canonical_tokens()
    d = Doc().start("graphml")
    table = []
    for i, dom in enumerate(domains):
        kid, name = x.token("key%d" % i, len(domains)), "attr%d" % x.choice("name%d" % i, 0, 1)
        default = x.token("default%d" % i, 3) if x.flag("has default %d" % i) else None
        for k2, d2, n2, f2 in table:
            if (d2 or "all") == (dom or "all"):
                x.assume(x.And(n2 != name, x.Not(x.Eq(k2, kid))))
        attrs = {"id": kid, "attr.name": name}
        if dom:
            attrs["for"] = dom
        d.start_("key", attrs)
        if default is not None:
            d.elem("default", {}, default)
        d.end("key")
        table.append((kid, dom, name, default))
    d.elem("key", {"id": "k-l", "for": "node", "attr.name": "label"})
    d.elem("key", {"id": "k-t", "for": "all", "attr.name": "tokens"})
    used = x.token("used key", len(domains))
    where = x.pick("data on", ["graph", "node", "edge"])
    value = x.token("value", 3)

    def lookup(comp):
        """name of the attribute which the used key sets on comp, or None"""
        for doms in ((comp,), ("all", None)):
            for kid, dom, name, default in table:
                if dom in doms and x.fork(x.Eq(kid, used)):
                    return name
        return None
    expected = {}
    for comp in ("graph", "node", "edge"):
        exp = {}
        for doms in (("all", None), (comp,)):
            for kid, dom, name, default in table:
                if dom in doms and default is not None:
                    exp[name] = default
        expected[comp] = exp
    attr = lookup(where)
    if attr is not None:
        expected[where][attr] = value

    def put(comp):
        if comp == where:
            data(d, used, value)
    d.start("graph", id="g")
    data(d, "k-t", "words")
    put("graph")
    for i in "12":
        d.start("node", id="n" + i)
        data(d, "k-l", "lab")
        data(d, "k-t", "words")
        if i == "1":
            put("node")
        d.end("node")
    for t in "21":
        d.start("edge", source="n1", target="n" + t)
        if t == "2":
            put("edge")
        d.end("edge")
    d.end("graph").end("graphml")
    if attr is None:
        x.prove(raises(lambda: parse(x, d), DaesoError), "an undefined key is an error")
        return
    g = parse(x, d)["g"]
    plain = dict([(c, dict(e)) for c, e in expected.items()])
    for comp, have in (("graph", g.graph), ("node", g.node["n1"]), ("edge", g["n1"]["n2"])):
        for name in ("attr0", "attr1"):
            if name in expected[comp]:
                x.prove(name in have and x.fork(x.Eq(have[name], expected[comp][name])), "value on a " + comp)
            else:
                x.prove(name not in have, "no value on a " + comp)
    # elements without data have the defaults only
    for comp, have in (("node", g.node["n2"]), ("edge", g["n1"]["n1"])):
        for name in ("attr0", "attr1"):
            default = None
            for doms in (("all", None), (comp,)):
                for kid, dom, nm, df in table:
                    if dom in doms and nm == name and df is not None:
                        default = df
            if default is None:
                x.prove(name not in have, "no value on another " + comp)
            else:
                x.prove(name in have and x.fork(x.Eq(have[name], default)), "default on another " + comp)
    x.prove(g.node["n1"]["label"] == "lab" and g.tokens == ["words"], "label and tokens")


def default_tokens(x):
    """defaults of label, tokens and root"""
    d = Doc().start("graphml")
    dl, dt, dg, dr = [bool(x.flag("default " + k)) for k in ("label", "node tokens", "graph tokens", "root")]
    for kid, dom, name, on, value in (("k-l", "node", "label", dl, "deflabel"), ("k-t", "node", "tokens", dt, "def tok"),
                                      ("k-gt", "graph", "tokens", dg, "graph tok"), ("k-r", "graph", "root", dr, "n1")):
        d.start_("key", {"id": kid, "for": dom, "attr.name": name})
        if on:
            d.elem("default", {}, value)
        d.end("key")
    has = [bool(x.flag("given " + k)) for k in ("label", "node tokens", "graph tokens", "root")]
    d.start("graph", id="g").start("node", id="n1")
    if has[0]:
        data(d, "k-l", "lab")
    if has[1]:
        data(d, "k-t", "own", " tokens")
    d.end("node").start("node", id="n2")
    data(d, "k-l", "lab2")
    data(d, "k-t", "tok2")
    d.end("node")
    if has[2]:
        data(d, "k-gt", "own graph")
    if has[3]:
        data(d, "k-r", "n2")
    d.end("graph").end("graphml")
    missing = not ((dl or has[0]) and (dt or has[1]) and (dg or has[2]))
    out = []
    bad = raises(lambda: out.append(parse(x, d)), DaesoError)
    x.prove(bad == missing, "label and tokens are required")
    if not bad:
        g = out[0]["g"]
        x.prove(g.node["n1"]["label"] == ("lab" if has[0] else "deflabel"), "label")
        x.prove(g.node["n1"]["tokens"] == (["own", "tokens"] if has[1] else ["def", "tok"]), "tokens of the node")
        x.prove(g.tokens == (["own", "graph"] if has[2] else ["graph", "tok"]), "tokens of the graph")
        x.prove(g.root == ("n2" if has[3] else "n1" if dr else None), "root")
        x.prove(g.node["n2"]["label"] == "lab2" and g.node["n2"]["tokens"] == ["tok2"], "the other node")
        x.observe(g.tokens, g.root)


def several(x, shape, n_wanted, how):
    """several graphs, all or the wanted ones"""
    x.canonical_tokens()
    k = len(shape) + (n_wanted or 0)
    d = header(Doc())
    gids = tokens(x, "graph", len(shape), k)
    content = []
    for i, n in enumerate(shape):
        for j in range(i):
            x.assume(x.Not(x.Eq(gids[i], gids[j])))
        d.start("graph", id=gids[i])
        word = x.token("word%d" % i, 3)
        root = bool(x.flag("root%d" % i))
        data(d, "k-gt", word)
        if root:
            data(d, "k-r", "n0")
        labels = []
        for j in range(n):
            l = x.token("label%d-%d" % (i, j), 3)
            e = "extra" if i == j else None
            node(x, d, "n%d" % j, l, ["tok"], 0, e)
            labels.append((l, e))
        if n > 1:
            d.elem("edge", {"source": "n0", "target": "n1"})
            if i:
                d.elem("edge", {"source": "n1", "target": "n0"})
        d.end("graph")
        content.append((word, root, labels))
    d.end("graphml")
    wanted = None
    if n_wanted is not None:
        wanted = tokens(x, "wanted", n_wanted, k)
        for i in range(n_wanted):
            for j in range(i):
                x.assume(x.Not(x.Eq(wanted[i], wanted[j])))
    cut = x.choice("cut", 0, len(d.events)) if how == "parts" else 0
    out = []
    bad = raises(lambda: out.append(parse(x, d, wanted, how, cut)), DaesoError)
    if wanted is None:
        x.prove(not bad, "no graph is missing")
        expect = gids
    else:
        missing = x.Or(*[x.Not(member(x, w, gids)) for w in wanted]) if wanted else False
        x.prove(x.Eq(missing, bad), "missing graphs are an error")
        expect = wanted
    if bad:
        return
    got = out[0]
    x.prove(len(got) == len(expect), "number of graphs")
    for key, g in got.items():
        x.prove(member(x, key, expect), "the wanted graphs")
        x.prove(g is not None and x.Eq(g.id, key), "graph id")
        which = [i for i in range(len(gids)) if x.fork(x.Eq(gids[i], key))]
        x.prove(len(which) == 1, "a graph of the document")
        i = which[0]
        word, root, labels = content[i]
        x.prove(len(g.tokens) == 1 and x.fork(x.Eq(g.tokens[0], word)), "tokens of the graph")
        x.prove(g.root == ("n0" if root else None), "root of the graph")
        x.prove(sorted(g.nodes()) == ["n%d" % j for j in range(len(labels))], "nodes of the graph")
        for j, (l, e) in enumerate(labels):
            check_node(x, g, "n%d" % j, l, ["tok"], e)
        edges = []
        if len(labels) > 1:
            edges = [("n0", "n1")] + ([("n1", "n0")] if i else [])
        x.prove(sorted(g.edges()) == edges, "edges of the graph")
        x.prove("extra" not in g.graph and "label" not in g.graph, "data of the graph")
    x.observe(sorted([x.value(k) for k in got]) if x.symbolic is None else len(got))


def text(x):
    """text is what XML says it is, whatever pieces it comes in"""
    d = header(Doc())
    s = x.pick("text", [u"a & b", u"<x>", u"caf\xe9", u"a", u"\u20ac \"q\" 'r'"])
    c = x.choice("cut", 0, len(s))
    d.start("graph", id="g")
    data(d, "k-gt", s[:c], s[c:])
    d.start("node", id="n")
    data(d, "k-l", s[:c], s[c:])
    data(d, "k-t", "t")
    d.text("\n  ")
    data(d, "k-x", s)
    d.end("node").text("\n").end("graph").text("\n").end("graphml")
    g = parse(x, d, how=x.pick("how", ["file", "string"]))["g"]
    x.prove(g.tokens == s.split() and g.node["n"]["label"] == s and g.node["n"]["extra"] == s, "text is kept")


def jobs(tier):
    out = {"text": (text, {}), "default-tokens": (default_tokens, {})}
    thorough = tier == "thorough"
    for n, m in ((0, 0), (1, 0), (1, 1), (2, 1), (2, 2)) + (((3, 0), (3, 2), (2, 3)) if thorough else ()):
        out["graph-%d-%d" % (n, m)] = (one_graph, dict(n=n, m=m))
    for i, a in enumerate(DOMAINS):
        out["keys-%s" % a] = (keys, dict(domains=[a]))
        for b in DOMAINS[i:]:
            out["keys-%s-%s" % (a, b)] = (keys, dict(domains=[a, b]))
            if thorough:
                for c in DOMAINS[DOMAINS.index(b):]:
                    if max([[d or "all" for d in (a, b, c)].count(e) for e in DOMAINS]) == 3:
                        continue
                    out["keys-%s-%s-%s" % (a, b, c)] = (keys, dict(domains=[a, b, c]))
    shapes = [((1,), None), ((2, 2), None), ((1, 0), None), ((0,), 0), ((1,), 1), ((1, 2), 1), ((2, 1), 1), ((1, 1), 2)]
    if thorough:
        shapes += [((2, 2), 2), ((1, 1, 1), 1), ((1, 1, 1), 2), ((1, 1, 1), None)]
    for s, w in shapes:
        for how in ("file", "string"):
            out["several-%s-%s-%s" % ("-".join(map(str, s)), w, how)] = (several, dict(shape=s, n_wanted=w, how=how))
    out["several-1-0-None-parts"] = (several, dict(shape=(1, 0), n_wanted=None, how="parts"))
    out["several-1-0-1-parts"] = (several, dict(shape=(1, 0), n_wanted=1, how="parts"))
    return out
