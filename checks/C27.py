# -*- coding: utf-8 -*-
"""C27  ROUGE scores"""
import sys
from helpers import *
from daeso.string import rouge as m
from C21 import lcs_len

META = {
    "bounds": {"quick": "candidate and references together at most 5 tokens, one or two references, n = 1..3, beta 0, 1, 2, distance limits 0, 1 and unlimited; every equality pattern of the tokens",
               "thorough": "at most 6 tokens in all"},
    "outside": "longer texts",
    "assumptions": ["scores are computed in floats on concrete counts and compared with a tolerance of 1e-9"],
}


def close(a, b):
    return abs(a - b) <= 1e-9


def decide(x, term):
    u = 0
    while not x.flag_eq(term, u):
        u += 1
    return u


def rouge_n(x, c, refs):
    total = c + sum(refs)
    cand = tuple(tokens(x, "c", c, total))
    rs = [tuple(tokens(x, "r%d-" % i, k, total)) for i, k in enumerate(refs)]
    n = x.choice("n", 1, 3)
    score = m.rouge_n(cand, rs, n)
    x.observe(score)

    def same(g, h):
        return x.And(*[x.Eq(p, q) for p, q in zip(g, h)])
    cg = [cand[i:i + n] for i in range(c - n + 1)]
    rg = [r[i:i + n] for r in rs for i in range(len(r) - n + 1)]
    # number of n-grams in common, as multisets: every reference n-gram j
    # counts if fewer equal ones precede it than the candidate holds
    hits = []
    for j, g in enumerate(rg):
        before = count(x, [same(g, h) for h in rg[:j]])
        have = count(x, [same(g, h) for h in cg])
        hits.append(x.Lt(before, have))
    match = count(x, hits)
    if not rg:
        x.prove(score == 0, "0 when no n-gram fits")
        return
    x.prove(x.Eq(match, decide(x, match)) and close(score * len(rg), decide(x, match)),
            "matched n-grams over reference n-grams")
    x.prove(-1e-9 <= score <= 1 + 1e-9, "score in [0,1]")
    if len(rs) == 1 and len(cand) == len(rs[0]):
        x.prove(x.Implies(same(cand, rs[0]), close(score, 1)), "equal texts score 1")


def fmeasure(p, r, beta):
    return (1 + beta ** 2) * p * r / (beta ** 2 * p + r) if beta ** 2 * p + r else 0


def rouge_l(x, c, r, kind):
    cand = kind(tokens(x, "c", c, c + r))
    ref = kind(tokens(x, "r", r, c + r))
    beta = x.pick("beta", [None, 0, 1, 2])
    if beta is None:
        score, beta = m.rouge_l(cand, ref), 1
    else:
        score = m.rouge_l(cand, ref, beta)
    x.observe(score)
    l = decide(x, lcs_len(x, cand, ref))
    if c == 0 or r == 0 or l == 0:
        x.prove(score == 0, "0 when nothing is shared")
        return
    x.prove(close(score, fmeasure(float(l) / c, float(l) / r, beta)), "F-measure of the common subsequence")
    x.prove(0 <= score <= 1 + 1e-9, "score in [0,1]")
    if c == r:
        x.prove(x.Implies(same_seq(x, cand, ref), close(score, 1)), "equal texts score 1")


def rouge_s(x, c, r, marker):
    total = c + r
    cand = tuple(tokens(x, "c", c, total))
    ref = tuple(tokens(x, "r", r, total))
    beta = x.pick("beta", [None, 2])
    limit = x.pick("limit", [None, 0, 1])
    kw = {}
    if beta is not None:
        kw["beta"] = beta
    if limit is not None:
        kw["distance_limit"] = limit
    f = m.rouge_su if marker else m.rouge_s
    score = f(cand, ref, **kw)
    x.observe(score)
    if beta is None:
        beta = 1
    if limit is None:
        limit = sys.maxint
    C, R = list(cand), list(ref)
    if marker:
        C, R = ["_"] + C, ["_"] + R

    def grams(s):
        return [(s[i], s[j]) for i in range(len(s)) for j in range(i + 1, len(s))
                if j - i - 1 <= limit]

    def same(g, h):
        return x.And(x.Eq(g[0], h[0]), x.Eq(g[1], h[1]))
    cg, rg = grams(C), grams(R)
    def distinct(l):
        return [x.Not(x.Or(*[same(g, h) for h in l[:i]])) if i else True for i, g in enumerate(l)]
    common = [x.And(first, x.Or(*[same(g, h) for h in rg]) if rg else False) for first, g in zip(distinct(cg), cg)]
    k = decide(x, count(x, common))
    if not k:
        x.prove(score == 0, "0 when nothing is shared")
        return
    nc, nr = [decide(x, count(x, distinct(l))) for l in (cg, rg)]
    x.prove(close(score, fmeasure(float(k) / nr, float(k) / nc, beta)),
            "F-measure of the shared skip bigrams")
    if c == r:
        x.prove(x.Implies(same_seq(x, list(cand), list(ref)), close(score, 1)), "equal texts score 1")
    x.prove(0 <= score <= 1 + 1e-9, "score in [0,1]")
    # every first-list statistic is a recall: swapping the texts swaps recall
    # and precision, which beta = 1 does not see
    if beta == 1:
        x.prove(close(score, f(ref, cand, **kw)), "symmetric for beta 1")


def jobs(tier):
    top = 6 if tier == "thorough" else 5
    out = {}
    for c in range(4):
        for r in range(4):
            if c + r <= top:
                out["rouge_n-%d-%d" % (c, r)] = (rouge_n, dict(c=c, refs=(r,)))
                out["rouge_l-%d-%d" % (c, r)] = (rouge_l, dict(c=c, r=r, kind=tuple))
            if c + r <= top:
                out["rouge_s-%d-%d" % (c, r)] = (rouge_s, dict(c=c, r=r, marker=False))
            if c + r <= top - 1:
                out["rouge_su-%d-%d" % (c, r)] = (rouge_s, dict(c=c, r=r, marker=True))
    for c, refs in [(1, ()), (2, (1, 1)), (2, (1, 2)), (1, (0, 2)), (3, (1, 1))]:
        out["rouge_n-%d-%s" % (c, "-".join(map(str, refs)) + "+")] = (rouge_n, dict(c=c, refs=refs))
    out["rouge_l-list"] = (rouge_l, dict(c=2, r=2, kind=list))
    return out
