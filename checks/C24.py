# -*- coding: utf-8 -*-
"""C24  Waterman-Eggert: successive local alignments"""
from helpers import *
from daeso.string import waterman_eggert as m
from C22 import setup
from C23 import chains, value, SCHEMES

META = {
    "first": ["pattern-3-3"],
    "bounds": {"quick": "sequences up to 2 x 2, 1 x 3, 3 x 1 with an arbitrary real match score per element pair and an arbitrary real gap cost <= 0 per element, one alignment asked for (two below 2 x 2); up to 3 x 3 with every equality pattern of the elements, three scoring schemes, limits 1 to 4",
               "thorough": "as quick, plus two and three alignments and 4 x 3"},
    "outside": "longer sequences; rounding of floats; that alignments beyond the first do not intersect earlier ones (known finding)",
    "assumptions": ["scores are real numbers (floats are treated as reals)",
                    "the builtin max over (score, step) tuples is encoded as an if-then-else term"],
}


def optimal(x, n, k, limit):
    a, b, sim, gap = setup(x, n, k)
    for e in a + b:
        x.assume(x.Le(gap[e], 0))
    judge(x, a, b, sim, gap, limit)


def pattern(x, n, k, scheme, limit):
    hit, miss, skip = scheme
    s = tokens(x, "a", n, n + k)
    t = tokens(x, "b", k, n + k)
    a, b = range(n), range(n, n + k)
    sim = {}
    for i in a:
        for j in b:
            sim[i, j] = hit if s[i] == t[j - n] else miss
    judge(x, a, b, sim, dict([(e, skip) for e in a + b]), limit)


def judge(x, a, b, sim, gap, limit):
    n, k = len(a), len(b)

    def run(limit):
        return m.waterman_eggert(a, b, lambda p, q: sim[p, q], lambda e: gap[e], limit=limit)
    tables, aligns = run(limit)
    x.observe(aligns)
    x.prove(len(aligns) <= limit, "limit on the number of alignments")
    x.prove(len(tables) == len(aligns), "one table per alignment")
    for pairs in aligns:
        x.prove(all(0 <= i < n and 0 <= j < k for i, j in pairs), "indices of elements")
        x.prove(all(p[0] < q[0] and p[1] < q[1] for p, q in zip(pairs, pairs[1:])),
                "pairs in order, every element at most once")
    cs = chains(n, k)
    if not aligns:
        for c in cs:
            x.prove(x.Le(value(c, a, b, sim, gap), 0), "no alignment only if none scores")
        return
    first = aligns[0]
    v = value(first, a, b, sim, gap)
    x.prove(x.Lt(0, v), "positive score")
    end = first[-1]
    for c in cs:
        w = value(c, a, b, sim, gap)
        x.prove(x.Le(w, v), "first alignment is optimal")
        e = c[-1]
        if (sum(e), e[0]) < (sum(end), end[0]):
            x.prove(x.Lt(w, v), "ties are resolved to the earliest end")
    for table in tables:
        x.prove(x.Lt(0, x.Max(*[s[0] for s in table.values()])), "a positive score in every table")
    # the table of the first alignment is not changed by later rounds
    for (i, j), s in tables[0].items():
        best = x.Max(0, *[value(c, a, b, sim, gap) for c in cs if c[-1] == (i-1, j-1)])
        x.prove(x.Le(best, s[0]), "table kept for the first alignment")
    if limit > 1:
        t1, a1 = run(limit - 1)
        x.prove(a1 == aligns[:limit - 1], "a smaller limit gives a prefix")


def jobs(tier):
    out = {}
    for n, k in [(n, k) for n in range(3) for k in range(3)] + [(1, 3), (3, 1)]:
        for limit in [1] + ([2] if n * k != 4 or tier == "thorough" else []) + ([3] if tier == "thorough" else []):
            out["optimal-%d-%d-limit%d" % (n, k, limit)] = (optimal, dict(n=n, k=k, limit=limit))
    for n, k in [(2, 3), (3, 2), (3, 3)] + ([(4, 3)] if tier == "thorough" else []):
        for i, s in enumerate(SCHEMES):
            out["pattern-%d-%d-%d" % (n, k, i)] = (pattern, dict(n=n, k=k, scheme=s, limit=i + 2))
    return out
