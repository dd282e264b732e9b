# -*- coding: utf-8 -*-
"""C29  set median string"""
from helpers import *
from daeso.string import median as m

META = {
    "bounds": {"quick": "1 to 4 strings, arbitrary non-negative real distances between them, given by a symmetric function; all different, and every way in which some of them may be equal; also the real Levenshtein distance on 3 token sequences of length 1 and 2",
               "thorough": "1 to 5 strings, 4 token sequences"},
    "outside": "longer lists; rounding of floats; the empty list, which has no median",
    "assumptions": ["distances are real numbers (floats are treated as reals)", "the distance function is symmetric"],
}


def median(x, n, kind):
    names = ["s%d" % i for i in range(n)]
    d = {}
    for i in range(n):
        for j in range(i):
            d[names[i], names[j]] = d[names[j], names[i]] = v = x.real("d-%d-%d" % (i, j))
            x.assume(x.Le(0, v))
    for e in names:
        d[e, e] = 0
    s = kind(names)
    got = m.set_median_string(s, lambda a, b: d[a, b])
    x.observe(got)
    x.prove(got in names, "a member of the list")
    own = x.Sum([d[got, e] for e in names])
    for e in names:
        other = x.Sum([d[e, f] for f in names])
        x.prove(x.Le(own, other), "no member has a smaller sum of distances")
        if names.index(e) < names.index(got):
            x.prove(x.Lt(own, other), "the first such member")
    x.prove(list(s) == names, "argument unchanged")


def repeated(x, n):
    """some strings occur more than once"""
    kinds = [0]
    for i in range(1, n):
        kinds.append(x.pick("kind%d" % i, range(max(kinds) + 2)))
    d = {}
    for i in range(max(kinds) + 1):
        d[i, i] = 0
        for j in range(i):
            d[i, j] = d[j, i] = v = x.real("d-%d-%d" % (i, j))
            x.assume(x.Le(0, v))
    names = ["s%d" % k for k in kinds]
    got = m.set_median_string(names, lambda a, b: d[int(a[1:]), int(b[1:])])
    x.observe(got)
    x.prove(got in names, "a member of the list")
    sums = [x.Sum([d[k, e] for e in kinds]) for k in kinds]
    own = sums[names.index(got)]
    for e, other in enumerate(sums):
        x.prove(x.Le(own, other), "no member has a smaller sum of distances")
        if e < names.index(got):
            x.prove(x.Lt(own, other), "the first such member")


def real(x, shape):
    from daeso.string.levenshtein import levenshtein
    total = sum(shape)
    seqs = [tokens(x, "s%d-" % i, n, total) for i, n in enumerate(shape)]
    got = m.set_median_string(seqs, levenshtein)
    k = [i for i, s in enumerate(seqs) if s is got]
    x.prove(len(k) == 1, "a member of the list")
    x.observe(k)
    sums = [sum([levenshtein(s, t) for t in seqs]) for s in seqs]
    for i, v in enumerate(sums):
        x.prove(x.Le(sums[k[0]], v), "no member has a smaller sum of distances")


def jobs(tier):
    out = {}
    for n in range(1, 6 if tier == "thorough" else 5):
        out["median-%d" % n] = (median, dict(n=n, kind=list))
    for n in range(2, 6 if tier == "thorough" else 5):
        out["repeated-%d" % n] = (repeated, dict(n=n))
    out["median-tuple"] = (median, dict(n=3, kind=tuple))
    out["levenshtein"] = (real, dict(shape=(1, 2, 1)))
    if tier == "thorough":
        out["levenshtein-4"] = (real, dict(shape=(1, 1, 2, 1)))
    return out
