# -*- coding: utf-8 -*-
"""C20  Levenshtein distance: minimal number of edits, metric axioms"""
from helpers import *
from daeso.string import levenshtein as m

META = {
    "bounds": {"quick": "all pairs of token sequences of length 0..3 (and 4 x 2); three sequences of length <= 2 for the triangle inequality; lists, tuples; the alphabet is as large as the number of tokens, so every equality pattern occurs",
               "thorough": "as quick, plus 4 x 3 and triples of length <= 2, 2, 3"},
    "outside": "longer sequences",
    "assumptions": ["elements are compared with == and != only"],
}


def edits(x, a, b):
    """recursive definition of the minimal number of edits, as one term"""
    d = {}
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if i == 0 or j == 0:
                d[i, j] = i + j
            else:
                d[i, j] = x.Min(d[i-1, j] + 1, d[i, j-1] + 1,
                                d[i-1, j-1] + x.ite(x.Eq(a[i-1], b[j-1]), 0, 1))
    return d[len(a), len(b)]


def distance(x, n, k, kind):
    a = tokens(x, "a", n, n + k)
    b = tokens(x, "b", k, n + k)
    if kind == "tuple":
        a, b = tuple(a), tuple(b)
    d = m.levenshtein(a, b)
    x.observe(d)
    e = edits(x, a, b)
    x.prove(x.Eq(d, e), "minimal number of edits")
    nd = m.normalized_levenshtein(a, b)
    x.observe(nd)
    if n == k == 0:
        x.prove(nd == 0, "normalised distance of empty sequences is 0")
    else:
        x.prove(x.Close(nd * max(n, k), e), "normalised distance")
        x.prove(x.And(x.Le(0, nd), x.Le(nd, 1)), "normalised distance in [0,1]")
    x.prove(len(a) == n and len(b) == k, "arguments unchanged")


def symmetry(x, n, k):
    a = tokens(x, "a", n, n + k)
    b = tokens(x, "b", k, n + k)
    d, e = m.levenshtein(a, b), m.levenshtein(b, a)
    x.observe(d, e)
    x.prove(x.Eq(d, e), "symmetric")
    x.prove(x.Implies(x.Eq(d, 0), same_seq(x, a, b)), "zero only for equal sequences")


def triangle(x, n, k, l):
    a = tokens(x, "a", n, n + k + l)
    b = tokens(x, "b", k, n + k + l)
    c = tokens(x, "c", l, n + k + l)
    d = [m.levenshtein(a, b), m.levenshtein(b, c), m.levenshtein(a, c)]
    x.observe(d)
    x.prove(x.Le(d[2], d[0] + d[1]), "triangle inequality")


def jobs(tier):
    out = {}
    sizes = [(n, k) for n in range(4) for k in range(4)] + [(4, 2), (2, 4)]
    if tier == "thorough":
        sizes += [(4, 3), (3, 4)]
    for n, k in sizes:
        for kind in ("list", "tuple"):
            if kind == "tuple" and n + k > 4:
                continue
            out["distance-%d-%d-%s" % (n, k, kind)] = (distance, dict(n=n, k=k, kind=kind))
    for n in range(3):
        for k in range(n, 4):
            out["symmetry-%d-%d" % (n, k)] = (symmetry, dict(n=n, k=k))
    for n in range(3):
        for k in range(3):
            for l in range(n, 4 if tier == "thorough" else 3):
                out["triangle-%d-%d-%d" % (n, k, l)] = (triangle, dict(n=n, k=k, l=l))
    return out
