# -*- coding: utf-8 -*-
"""C28  idf and tf*idf term weights"""
import math
from helpers import *
from daeso.string import tf_idf as m

META = {
    "first": ["tf-2-2", "idf-2-2"],
    "bounds": {"quick": "up to three documents with at most 4 term tokens in all; every equality and order pattern of the terms; normalised or not, indicator or not",
               "thorough": "at most 5 term tokens in all"},
    "outside": "larger collections",
    "assumptions": ["logarithms are taken of concrete document frequencies and computed in floats, compared with a tolerance of 1e-9"],
}


def close(a, b):
    return abs(a - b) <= 1e-9


def decide(x, term):
    u = 0
    while not x.flag_eq(term, u):
        u += 1
    return u


def collection(x, shape):
    total = sum(shape)
    return [tokens(x, "d%d-" % i, n, total) for i, n in enumerate(shape)]


def check_terms(x, terms, docs):
    all_ = sum(docs, [])
    x.prove(x.Eq(n_types(x, all_), len(terms)), "one entry per term")
    for t in terms:
        x.prove(member(x, t, all_), "only terms of the documents")
    for a, b in zip(terms, terms[1:]):
        x.prove(x.And(x.Not(x.Eq(a, b)), a < b), "terms sorted, each once")


def weights(x, shape, which):
    docs = collection(x, shape)
    keep = [list(d) for d in docs]
    normalized = x.pick("normalized", [None, False, True])
    kw = {}
    if normalized is not None:
        kw["normalized"] = normalized
    indicator = False
    if which == "tf":
        indicator = x.pick("indicator", [None, True])
        if indicator is not None:
            kw["indicator"] = indicator
        terms, w = m.tf_idf(docs, **kw)
    else:
        terms, w = m.idf(docs, **kw)
    x.observe(terms, w)
    check_terms(x, terms, keep)
    n = len(docs)
    x.prove(len(w) == n and all(len(row) == len(terms) for row in w), "one weight per term and document")
    norm = math.log(n) if normalized and n > 1 else 1.0
    dfs = []
    for j, t in enumerate(terms):
        df = decide(x, count(x, [member(x, t, d) for d in keep]))
        dfs.append(df)
        idf = math.log(float(n) / df) / norm
        for i, d in enumerate(keep):
            if which == "idf":
                x.prove(close(w[i][j], idf), "inverse document frequency")
                continue
            c = decide(x, count(x, [x.Eq(t, e) for e in d]))
            if indicator:
                tf = 1.0 if c else 0.0
            else:
                tf = c / float(len(d)) if d else 0.0
            x.prove(close(w[i][j], tf * idf), "term frequency times idf")
            if c == 0 or df == n:
                x.prove(w[i][j] == 0, "weight 0 of absent and ubiquitous terms")
        for row in w:
            x.prove(row[j] >= 0, "weights are not negative")
            if normalized:
                x.prove(row[j] <= 1 + 1e-9, "normalised weights are at most 1")
    if which == "idf" and n:
        for i in range(len(terms)):
            for j in range(len(terms)):
                if dfs[i] < dfs[j]:
                    x.prove(w[0][i] > w[0][j], "rarer terms weigh more")
    x.prove(len(docs) == len(keep) and all([same_seq(x, a, b) is True or
            x.fork(same_seq(x, a, b)) for a, b in zip(docs, keep)]), "documents unchanged")


def jobs(tier):
    out = {}
    shapes = [(), (0,), (1,), (2,), (0, 0), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 1),
              (1, 1, 1), (2, 1, 1), (0, 2, 1), (1, 1, 2)]
    if tier == "thorough":
        shapes += [(2, 3), (3, 2), (2, 2, 1), (1, 2, 2)]
    for s in shapes:
        for which in ("tf", "idf"):
            out[which + "-" + "-".join(map(str, s))] = (weights, dict(shape=s, which=which))
    return out
