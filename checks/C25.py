# -*- coding: utf-8 -*-
"""C25  similarity coefficients"""
from helpers import *
from daeso.string import similar as m

META = {
    "bounds": {"quick": "pairs of token sequences of length 0..3 x 0..3; one to three sequences with at most 5 tokens in all for the generalised coefficients; every equality pattern; lists, tuples and sets",
               "thorough": "pairs up to 4 x 3, up to four sequences with at most 6 tokens in all"},
    "outside": "longer sequences",
    "assumptions": ["elements are hashable and compared with ==; the hash of a symbolic token is a constant, so that set and dict lookups fork on equality",
                    "set sizes are concrete on each path; the coefficient itself is computed in floats and compared with a tolerance of 1e-9"],
}


def close(a, b):
    return abs(a - b) <= 1e-9


def pair(x, n, k, kind):
    a = tokens(x, "a", n, n + k)
    b = tokens(x, "b", k, n + k)
    A, B = kind(a), kind(b)
    if kind is set:
        n, k = len(A), len(B)
    common = n_common_types(x, a, b)
    union = n_types(x, a + b)

    # type and token matches
    t = m.type_match(A, B)
    x.prove(x.Eq(t, common), "type match")
    x.prove(x.Eq(m.type_match(B, A), t), "type match is symmetric")
    if kind is not set:
        p, q = m.token_match(A, B), m.token_match(B, A)
        x.prove(x.Eq(p, count(x, [member(x, e, b) for e in a])), "token match")
        x.prove(x.Eq(q, count(x, [member(x, e, a) for e in b])), "token match")
        x.prove(close(m.sym_token_match(A, B) * 2, p + q), "symmetric token match")

    # coefficients by their definition
    values = []
    for name, den in (("tanimoto", n + k - t), ("dice", (n + k) / 2.0),
                      ("overlap_min", min(n, k)), ("overlap", min(n, k)),
                      ("overlap_max", max(n, k)), ("cosine", (n * k) ** 0.5)):
        f = getattr(m, name)
        v, w = f(A, B), f(B, A)
        values.append((name, v, w))
        if den == 0:
            x.prove(v == 0, name + " of empty sequences is 0")
        else:
            x.prove(x.Eq(common, t) if close(v * den, t) else False, name)
    v, w = m.jaccard(A, B), m.jaccard(B, A)
    values.append(("jaccard", v, w))
    u = 0
    while not x.flag_eq(union, u):
        u += 1
    x.prove(close(v * u, t) if u else v == 0, "jaccard")
    x.observe(t, [v for n_, v, w in values])

    # every equality pattern is decided on this path: sets or not?
    plain = x.Eq(n_types(x, a), n)
    plain = x.And(plain, x.Eq(n_types(x, b), k))
    same = x.And(x.Eq(common, n_types(x, a)), x.Eq(common, n_types(x, b)), n > 0)
    for name, v, w in values:
        x.prove(close(v, w), name + " is symmetric")
        x.prove(0 <= v, name + " is not negative")
        x.prove(x.Implies(x.And(plain, v > 1 + 1e-9), False), name + " is at most 1 without repeated elements")
        x.prove(x.Implies(x.And(plain, same), close(v, 1)), name + " is 1 for equal sets")
        x.prove(x.Implies(x.Eq(common, 0), v == 0), name + " is 0 for disjoint sets")
        if v == 0:
            x.prove(x.Eq(common, 0), name + " is 0 only for disjoint sets")


def several(x, shape, kind):
    total = sum(shape)
    seqs = [tokens(x, "s%d-" % i, n, total) for i, n in enumerate(shape)]
    S = [kind(s) for s in seqs]
    product = 1
    for n in shape:
        product *= n
    got = [m.generalized_cosine(S), m.generalized_dice(S), m.generalized_jaccard(S)]
    x.observe(got)
    if not seqs:
        x.prove(got == [0, 0, 0], "0 without sequences")
        return
    flags = distinct_flags(x, seqs[0])
    common = count(x, [x.And(f, *[member(x, e, s) for s in seqs[1:]])
                       for f, e in zip(flags, seqs[0])])
    union = n_types(x, sum(seqs, []))
    c = 0
    while not x.flag_eq(common, c):
        c += 1
    u = 0
    while not x.flag_eq(union, u):
        u += 1
    x.prove(close(got[0] * product ** 0.5, c) if product else got[0] == 0, "generalised cosine")
    x.prove(close(got[1] * total, len(shape) * c) if total else got[1] == 0, "generalised dice")
    x.prove(close(got[2] * u, c) if u else got[2] == 0, "generalised jaccard")
    x.prove(0 <= got[2] <= 1, "generalised jaccard in [0,1]")
    x.prove(x.Implies(x.And(*[x.Eq(n_types(x, s), len(s)) for s in seqs]),
                      got[1] <= 1 + 1e-9), "generalised dice at most 1 without repeated elements")
    rev = S[::-1]
    back = [m.generalized_cosine(rev), m.generalized_dice(rev), m.generalized_jaccard(rev)]
    x.prove(all(close(p, q) for p, q in zip(got, back)), "order of the sequences is irrelevant")
    if len(shape) == 2:
        x.prove(close(got[0], m.cosine(*S)) and close(got[1], m.dice(*S)) and
                close(got[2], m.jaccard(*S)), "generalises the binary coefficient")


def jobs(tier):
    out = {}
    sizes = [(n, k) for n in range(4) for k in range(4)]
    if tier == "thorough":
        sizes += [(4, 3), (3, 4)]
    for n, k in sizes:
        out["pair-%d-%d" % (n, k)] = (pair, dict(n=n, k=k, kind=list))
    out["pair-tuple"] = (pair, dict(n=2, k=2, kind=tuple))
    out["pair-set"] = (pair, dict(n=2, k=2, kind=set))
    shapes = [(), (0,), (2,), (0, 0), (1, 0), (2, 2), (0, 0, 0), (1, 1, 1), (2, 1, 2),
              (1, 2, 2), (2, 2, 1), (3, 1, 1), (0, 2, 2)]
    if tier == "thorough":
        shapes += [(2, 2, 2), (1, 1, 1, 1), (2, 1, 1, 2), (3, 2, 1)]
    for s in shapes:
        out["several-" + "-".join(map(str, s))] = (several, dict(shape=s, kind=list))
    out["several-tuple"] = (several, dict(shape=(1, 2, 1), kind=tuple))
    return out
