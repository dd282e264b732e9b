# -*- coding: utf-8 -*-
"""C23  Smith-Waterman: optimal local alignment"""
from helpers import *
from daeso.string import smith_waterman as m
from C22 import setup

META = {
    "first": ["uniform", "pattern-3"],
    "bounds": {"quick": "sequences up to 2 x 2, 1 x 3, 3 x 1 with an arbitrary real match score for every element pair and an arbitrary real gap cost <= 0 for every element; up to 3 x 3 with every equality pattern of the elements and three fixed scoring schemes, and 2 x 3 with one arbitrary match, mismatch and gap score",
               "thorough": "as quick, plus 3 x 2 with one arbitrary match, mismatch and gap score, 4 x 3 and 3 x 4 equality patterns"},
    "outside": "longer sequences; positive gap costs (documented as costs); rounding of floats",
    "assumptions": ["scores are real numbers (floats are treated as reals)",
                    "the builtin max over (score, step) tuples is encoded as an if-then-else term"],
}


def chains(n, k):
    """all non-empty chains of index pairs, strictly increasing"""
    def grow(i, j):
        yield []
        for p in range(i, n):
            for q in range(j, k):
                for rest in grow(p + 1, q + 1):
                    yield [(p, q)] + rest
    return [c for c in grow(0, 0) if c]


def value(pairs, a, b, sim, gap):
    """score of a local alignment: matches and the gaps between them"""
    total = 0
    for i, j in pairs:
        total = total + sim[a[i], b[j]]
    for (i, j), (p, q) in zip(pairs, pairs[1:]):
        for e in a[i+1:p] + b[j+1:q]:
            total = total + gap[e]
    return total


def optimal(x, n, k):
    a, b, sim, gap = setup(x, n, k)
    for e in a + b:
        x.assume(x.Le(gap[e], 0))
    judge(x, a, b, sim, gap)


def uniform(x, n, k):
    """elements that match or not, one score for each case"""
    hit, miss, skip = x.real("match"), x.real("mismatch"), x.real("gap")
    x.assume(x.And(x.Le(skip, 0), x.Le(miss, hit)))
    pattern(x, n, k, (hit, miss, skip))


def pattern(x, n, k, scheme):
    hit, miss, skip = scheme
    s = tokens(x, "a", n, n + k)
    t = tokens(x, "b", k, n + k)
    a, b = range(n), range(n, n + k)
    sim = {}
    for i in a:
        for j in b:
            sim[i, j] = hit if s[i] == t[j - n] else miss
    judge(x, a, b, sim, dict([(e, skip) for e in a + b]))


def judge(x, a, b, sim, gap):
    n, k = len(a), len(b)
    scores, pairs = m.smith_waterman(a, b, lambda p, q: sim[p, q], lambda e: gap[e])
    x.observe(pairs)
    x.prove(all(0 <= i < n and 0 <= j < k for i, j in pairs), "indices of elements")
    x.prove(all(p[0] < q[0] and p[1] < q[1] for p, q in zip(pairs, pairs[1:])),
            "pairs in order, every element at most once")
    v = value(pairs, a, b, sim, gap)
    cs = chains(n, k)
    for c in cs:
        x.prove(x.Le(value(c, a, b, sim, gap), v), "no better local alignment")
    if pairs:
        x.prove(x.Lt(0, v), "a reported alignment has a positive score")
    top = x.Max(0, *[s[0] for s in scores.values()])
    x.prove(x.Close(top, v), "highest score in the table is the score of the alignment")


SCHEMES = [(10, -9, -20), (5, 0, -5), (2, -1, -1)]


def jobs(tier):
    out = {}
    for n, k in [(n, k) for n in range(3) for k in range(3)] + [(1, 3), (3, 1)]:
        out["optimal-%d-%d" % (n, k)] = (optimal, dict(n=n, k=k))
    top = [(2, 3), (3, 2), (3, 3)]
    out["uniform-2-2"] = (uniform, dict(n=2, k=2))
    out["uniform-2-3"] = (uniform, dict(n=2, k=3))
    if tier == "thorough":
        top += [(4, 3), (3, 4)]
        out["uniform-3-2"] = (uniform, dict(n=3, k=2))
    for n, k in top:
        for i, s in enumerate(SCHEMES):
            out["pattern-%d-%d-%d" % (n, k, i)] = (pattern, dict(n=n, k=k, scheme=s))
    return out
