# -*- coding: utf-8 -*-
"""C21  longest common subsequence"""
from itertools import combinations
from helpers import *
from daeso.string import lcs as m

META = {
    "bounds": {"quick": "token sequences of length 0..3 x 0..3 as lists and tuples; strings up to 2 x 3 over 3 characters, unicode strings up to 2 x 2",
               "thorough": "token sequences up to 4 x 3; strings up to 3 x 3 over 3 characters"},
    "outside": "longer sequences",
    "assumptions": ["sqrt of the product of two lengths is computed by the real math.sqrt"],
}


def lcs_len(x, a, b):
    d = {}
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if i == 0 or j == 0:
                d[i, j] = 0
            else:
                d[i, j] = x.ite(x.Eq(a[i-1], b[j-1]), d[i-1, j-1] + 1,
                                x.Max(d[i-1, j], d[i, j-1]))
    return d[len(a), len(b)]


def is_subseq(x, s, a):
    """s is a subsequence of a, as one term"""
    if len(s) > len(a):
        return False
    return x.Or(*[x.And(*[x.Eq(s[p], a[i]) for p, i in enumerate(ix)] + [True])
                  for ix in combinations(range(len(a)), len(s))])


def judge(x, a, b, kind):
    a0, b0 = list(a), list(b)
    s = m.longest_common_subsequence(a, b)
    x.observe(list(s))
    x.prove(type(s) is kind, "type of the result")
    x.prove(is_subseq(x, s, a0), "subsequence of the first")
    x.prove(is_subseq(x, s, b0), "subsequence of the second")
    n = lcs_len(x, a0, b0)
    x.prove(x.Eq(len(s), n), "longest")
    x.prove(x.And(same_seq(x, list(a), a0), same_seq(x, list(b), b0)), "arguments unchanged")
    v = m.normalized_lcs(a, b)
    w = m.normalized_lcs(b, a)
    x.observe(v)
    if len(a0) * len(b0) == 0:
        x.prove(v == 0, "normalised lcs of an empty sequence is 0")
    else:
        x.prove(abs(v * v * len(a0) * len(b0) - len(s) ** 2) < 1e-9 and v >= 0, "normalised lcs")
    x.prove(0 <= v <= 1 + 1e-12, "normalised lcs in [0,1]")
    x.prove(abs(v - w) < 1e-12, "normalised lcs is symmetric")
    if len(a0) == len(b0) and len(a0):
        x.prove(x.Implies(same_seq(x, a0, b0), abs(v - 1) < 1e-12), "equal sequences score 1")


def seqs(x, n, k, kind):
    a = tokens(x, "a", n, n + k)
    b = tokens(x, "b", k, n + k)
    if kind == "tuple":
        judge(x, tuple(a), tuple(b), tuple)
    else:
        judge(x, a, b, list)


def strings(x, n, k, kind=str):
    a = kind("").join([x.pick("a%d" % i, kind("xyz")) for i in range(n)])
    b = kind("").join([x.pick("b%d" % i, kind("xyz")) for i in range(k)])
    judge(x, a, b, kind)


def jobs(tier):
    out = {}
    top = [(n, k) for n in range(4) for k in range(4)]
    if tier == "thorough":
        top += [(4, 3), (3, 4)]
    for n, k in top:
        for kind in ("list", "tuple"):
            if kind == "tuple" and n + k > 5:
                continue
            out["%s-%d-%d" % (kind, n, k)] = (seqs, dict(n=n, k=k, kind=kind))
    ss = [(0, 0), (0, 1), (1, 1), (2, 1), (2, 2), (2, 3), (3, 2)]
    if tier == "thorough":
        ss.append((3, 3))
    for n, k in ss:
        out["str-%d-%d" % (n, k)] = (strings, dict(n=n, k=k))
        if n * k < 6:
            out["unicode-%d-%d" % (n, k)] = (strings, dict(n=n, k=k, kind=unicode))
    return out
