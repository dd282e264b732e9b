# -*- coding: utf-8 -*-
"""C36  ordered dictionaries and counters"""
import copy
import pickle
from helpers import *
from daeso.thirdparty.odict import OrderedDict
from daeso.thirdparty.counter import Counter

META = {
    "first": ["history-2", "counters-2"],
    "bounds": {"quick": "ordered dictionaries: every history of up to 2 operations on up to 2 items, and of 3 settings and removals, with symbolic keys and values; counters: every pair of counters with up to 2 elements each and every integer count, counting up to 3 symbolic elements",
               "thorough": "ordered dictionaries: histories of 4 settings and removals; counters with up to 3 elements"},
    "outside": "longer histories",
    "assumptions": [],
}


def agree(x, d, model):
    """model: list of (key, value)"""
    ks = [k for k, v in model]
    x.prove(len(d) == len(model), "as many keys")
    for got, msg in ((list(d), "iteration"), (d.keys(), "keys"), (list(d.iterkeys()), "iterkeys"), (list(reversed(d))[::-1], "reversed")):
        x.prove(len(got) == len(ks) and x.fork(same_seq(x, got, ks)), msg + ": in order of insertion")
    vs = [v for k, v in model]
    for got, msg in ((d.values(), "values"), (list(d.itervalues()), "itervalues")):
        x.prove(same_seq(x, got, vs), msg + ": in order of insertion")
    for got, msg in ((d.items(), "items"), (list(d.iteritems()), "iteritems")):
        x.prove(len(got) == len(model) and x.fork(x.And(*[x.And(x.Eq(a, k), x.Eq(b, v)) for (a, b), (k, v) in zip(got, model)]) if got else True),
                msg + ": in order of insertion")


OPS = ["set", "del", "pop", "pop default", "popitem", "setdefault", "update", "clear", "copy", "fromkeys", "get"]


def history(x, n):
    d, model = OrderedDict(), []
    start = [(x.token("k-%d" % i, 4), x.int("v-%d" % i)) for i in range(x.choice("start", 0, 2))]
    how = x.pick("made by", ["pairs", "setting"])
    if how == "pairs":
        d = OrderedDict(start)
    else:
        for k, v in start:
            d[k] = v
    for k, v in start:
        put(x, model, k, v)
    agree(x, d, model)
    for i in range(n - len(start)) if n > 2 else range(n):
        op = x.pick("op%d" % i, OPS if n < 3 else ["set", "del", "popitem", "pop default"])
        k, v = x.token("k%d" % i, 4), x.int("v%d" % i)
        at = find(x, model, k) if op not in ("clear", "copy", "popitem") else None
        x.prove(op in ("clear", "copy", "popitem") or (k in d) == (at is not None), "membership")
        if op == "set":
            d[k] = v
            put(x, model, k, v)
        elif op == "del":
            def delete():
                del d[k]
            x.prove(raises(delete, KeyError) == (at is None), "KeyError for a missing key")
            if at is not None:
                del model[at]
        elif op == "pop":
            if at is None:
                x.prove(raises(lambda: d.pop(k), KeyError), "KeyError for a missing key")
            else:
                x.prove(x.Eq(d.pop(k), model.pop(at)[1]), "value popped")
        elif op == "pop default":
            x.prove(x.Eq(d.pop(k, v), v if at is None else model.pop(at)[1]), "value or default popped")
        elif op == "popitem":
            if not model:
                x.prove(raises(d.popitem, KeyError), "KeyError if empty")
            else:
                a, b = d.popitem()
                c, e = model.pop()
                x.prove(x.And(x.Eq(a, c), x.Eq(b, e)), "last item popped")
        elif op == "setdefault":
            x.prove(x.Eq(d.setdefault(k, v), v if at is None else model[at][1]), "value there or default")
            if at is None:
                model.append((k, v))
        elif op == "update":
            k2, v2 = x.token("k%d-2" % i, 4), x.int("v%d-2" % i)
            d.update([(k, v), (k2, v2)])
            put(x, model, k, v)
            put(x, model, k2, v2)
        elif op == "clear":
            d.clear()
            model = []
        elif op == "copy":
            kind = x.pick("copy%d" % i, ["copy", "copy.copy", "constructor"])
            old = d
            d = {"copy": d.copy, "copy.copy": lambda: copy.copy(d), "constructor": lambda: OrderedDict(d)}[kind]()
            x.prove(isinstance(d, OrderedDict) and d is not old and d == old and not d != old, "an equal copy")
            before = model[:]
            old.clear()
            old["other"] = 1
        elif op == "fromkeys":
            k2 = x.token("k%d-2" % i, 4)
            d = OrderedDict.fromkeys([k, k2], v)
            model = []
            put(x, model, k, v)
            put(x, model, k2, v)
        else:
            x.prove(x.Eq(d.get(k, v), v if at is None else model[at][1]), "value or default")
            if at is None:
                x.prove(raises(lambda: d[k], KeyError), "KeyError for a missing key")
            else:
                x.prove(x.Eq(d[k], model[at][1]), "value")
        agree(x, d, model)
    x.observe([v for k, v in model])


def find(x, model, k):
    for i, (a, b) in enumerate(model):
        if x.fork(x.Eq(a, k)):
            return i
    return None


def put(x, model, k, v):
    i = find(x, model, k)
    if i is None:
        model.append((k, v))
    else:
        model[i] = (model[i][0], v)


def stored(x):
    keys = [x.pick("k%d" % i, ["a", "b", 3]) for i in range(x.choice("n", 0, 3))]
    d = OrderedDict()
    for i, k in enumerate(keys):
        d[k] = [i]
    how = x.pick("how", ["pickle", "deepcopy"])
    e = pickle.loads(pickle.dumps(d)) if how == "pickle" else copy.deepcopy(d)
    x.prove(isinstance(e, OrderedDict) and e.items() == d.items(), "the same items in the same order")
    x.prove(all([e[k] is not d[k] for k in d]), "a deep copy")
    text = repr(d)
    at = [text.find("%r: %r" % i) for i in d.items()]
    x.prove(at == sorted(at) and -1 not in at, "written in order")
    x.prove(raises(lambda: OrderedDict([], []), TypeError), "one mapping at most")
    f = OrderedDict(d.items(), b=7, z=8)
    x.prove(f.items()[:len(d)] == [(k, 7 if k == "b" else v) for k, v in d.items()] and f["z"] == 8 and f["b"] == 7,
            "named values are added")
    c = Counter(keys)
    c.update(b=2)
    c.update({"a": 1})
    x.prove(dict(c) == dict([(k, v) for k, v in [(k, keys.count(k) + {"a": 1, "b": 2}.get(k, 0)) for k in ["a", "b", 3]] if v]),
            "counted by name and by number")
    for y in (c, Counter(keys), Counter(), Counter(a=2)):
        x.prove(eval(repr(y)) == y and isinstance(eval(repr(y)), Counter), "what is written evaluates to an equal counter")
    x.observe(len(d))


def counter(x, name, n, k):
    """a counter with symbolic elements and counts -> counter, list of (element, count)"""
    c, model = Counter(), []
    for i in range(n):
        e = x.token("%s-e%d" % (name, i), k)
        v = x.int("%s-v%d" % (name, i), -3, 3)
        if find(x, model, e) is None:
            model.append((e, v))
            c[e] = v
    return c, model


def of(x, model, e):
    i = find(x, model, e)
    return 0 if i is None else model[i][1]


def counters(x, n):
    k = 2 * n
    a, ma = counter(x, "a", x.choice("na", 0, n), k)
    b, mb = counter(x, "b", x.choice("nb", 0, n), k)
    op = x.pick("op", "+-|&u")
    if op == "u":
        r = a.copy()
        x.prove(isinstance(r, Counter) and r == a, "a copy")
        r.update(b)
    else:
        r = {"+": lambda: a + b, "-": lambda: a - b, "|": lambda: a | b, "&": lambda: a & b}[op]()
    every = ma[:]
    for e, v in mb:
        if find(x, every, e) is None:
            every.append((e, 0))
    x.prove(len(a) == len(ma) and len(b) == len(mb), "the counters are left alone")
    n_in = 0
    for e, v in every:
        p, q = of(x, ma, e), of(x, mb, e)
        if op == "u":
            want = p + q
        else:
            want = {"+": lambda: p + q, "-": lambda: p - q, "|": lambda: x.Max(p, q), "&": lambda: x.Min(p, q)}[op]()
            want = x.Max(want, 0)
            x.prove(x.Eq(e in r, x.Lt(0, want)), "positive counts only")
        x.prove(x.Eq(r[e], want), "count")
        n_in += 1 if e in r else 0
    x.prove(len(r) == n_in, "no other elements")
    x.observe([r[e] for e, v in every])


def counting(x, n):
    es = tokens(x, "e", n, n)
    c = Counter(es)
    for e in es:
        x.prove(x.Eq(c[e], count(x, [x.Eq(e, f) for f in es])), "how often it was counted")
    x.prove(x.Eq(len(c), n_types(x, es)), "as many elements as types")
    other = x.token("other", n + 1)
    x.prove(x.Eq(c[other], count(x, [x.Eq(other, f) for f in es])), "zero for what was not counted")
    x.prove(x.Eq(len(c), n_types(x, es)), "looking up adds nothing")
    x.prove(len(list(c.elements())) == n, "as many elements as counted")
    m = c.most_common()
    x.prove(len(m) == len(c) and all([m[i][1] >= m[i + 1][1] for i in range(len(m) - 1)]), "most common first")
    for e, v in m:
        x.prove(x.Eq(c[e], v), "most common with their counts")
    k = x.choice("k", 0, n)
    x.prove([v for e, v in c.most_common(k)] == [v for e, v in m[:k]], "the k most common")
    del c[other]
    x.prove(x.Eq(c[other], 0) and other not in c, "deleted")
    c.update(es[:1])
    x.prove(x.Eq(c[es[0]], x.ite(x.Eq(es[0], other), 1, count(x, [x.Eq(es[0], f) for f in es]) + 1)) if es else True, "counted once more")
    x.observe(sorted([v for e, v in m]))


def jobs(tier):
    deep = tier == "thorough"
    js = {"stored": (stored, {})}
    for n in range(1, 5 if deep else 4):
        js["history-%d" % n] = (history, dict(n=n))
    for n in range(1, 4 if deep else 3):
        js["counters-%d" % n] = (counters, dict(n=n))
    for n in range(1, 5 if deep else 4):
        js["counting-%d" % n] = (counting, dict(n=n))
    return js
