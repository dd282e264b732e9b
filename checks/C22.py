# -*- coding: utf-8 -*-
"""C22  Needleman-Wunsch: optimal global alignment"""
from helpers import *
from daeso.string import needleman_wunsch as m

META = {
    "bounds": {"quick": "sequences of length 0..3 x 0..3; match score of every element pair and gap cost of every element an arbitrary real",
               "thorough": "as quick, plus 4 x 3, 3 x 4 and 4 x 4"},
    "outside": "longer sequences; rounding of floats",
    "assumptions": ["scores are real numbers (floats are treated as reals)",
                    "the builtin max over (score, step) tuples is encoded as an if-then-else term"],
}


def setup(x, n, k):
    a = ["a%d" % i for i in range(n)]
    b = ["b%d" % i for i in range(k)]
    sim = dict([((p, q), x.real("sim-%s-%s" % (p, q))) for p in a for q in b])
    gap = dict([(e, x.real("gap-" + e)) for e in a + b])
    return a, b, sim, gap


def best(x, a, b, sim, gap):
    """optimal global score, as one term, by recursion from the right"""
    d = {}
    n, k = len(a), len(b)
    for i in range(n, -1, -1):
        for j in range(k, -1, -1):
            opts = []
            if i < n and j < k:
                opts.append(d[i+1, j+1] + sim[a[i], b[j]])
            if i < n:
                opts.append(d[i+1, j] + gap[a[i]])
            if j < k:
                opts.append(d[i, j+1] + gap[b[j]])
            d[i, j] = x.Max(*opts) if opts else 0
    return d[0, 0]


def optimal(x, n, k, kind):
    a, b, sim, gap = setup(x, n, k)
    scores, pairs = m.needleman_wunsch(kind(a), kind(b),
                                       lambda p, q: sim[p, q], lambda e: gap[e])
    x.observe(pairs)
    x.prove(all(0 <= i < n and 0 <= j < k for i, j in pairs), "indices of elements")
    x.prove(all(p[0] < q[0] and p[1] < q[1] for p, q in zip(pairs, pairs[1:])),
            "pairs in order, every element at most once")
    total = 0
    for i, j in pairs:
        total = total + sim[a[i], b[j]]
    for i in range(n):
        if i not in [p[0] for p in pairs]:
            total = total + gap[a[i]]
    for j in range(k):
        if j not in [p[1] for p in pairs]:
            total = total + gap[b[j]]
    x.prove(x.Close(total, best(x, a, b, sim, gap)), "no better global alignment")
    x.prove(x.Close(scores[n, k][0], total), "score in the table is the score of the alignment")


def jobs(tier):
    out = {}
    sizes = [(n, k) for n in range(4) for k in range(4)]
    if tier == "thorough":
        sizes += [(4, 3), (3, 4), (4, 4)]
    for n, k in sizes:
        out["optimal-%d-%d" % (n, k)] = (optimal, dict(n=n, k=k, kind=list))
    out["optimal-tuple-2-2"] = (optimal, dict(n=2, k=2, kind=tuple))
    return out
