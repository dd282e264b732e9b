# -*- coding: utf-8 -*-
"""C37  Pair"""
from helpers import *
from daeso.pair import Pair

META = {
    "bounds": {"quick": "all pairs of tokens and integers; three pairs for transitivity",
               "thorough": "the same"},
    "outside": "elements whose own comparison is not an equivalence",
    "assumptions": [],
}


class Sub(Pair):
    pass


def equality(x, n, kinds):
    elems = [[(x.token("%s%d" % (r, i), 2 * n) if k == "t" else x.int("%s%d" % (r, i)))
              for r in "st"] for i, k in zip(range(n), kinds)]
    pairs = [Pair(*e) for e in elems]
    for i in range(n):
        s, t = pairs[i]
        x.prove(x.And(x.Eq(s, elems[i][0]), x.Eq(t, elems[i][1])), "iteration")
        x.prove(x.Eq(pairs[i].source, elems[i][0]), "source")
        x.prove(x.Eq(pairs[i].target, elems[i][1]), "target")
        for j in range(n):
            if kinds[i] == kinds[j]:
                same = x.And(x.Eq(elems[i][0], elems[j][0]), x.Eq(elems[i][1], elems[j][1]))
            else:
                same = False
            eq = bool(pairs[i] == pairs[j])
            ne = bool(pairs[i] != pairs[j])
            x.observe(eq, ne)
            x.prove(x.Eq(same, eq), "equal exactly when both members are")
            x.prove(x.Eq(same, not ne), "!= is the negation of ==")
            x.prove((pairs[j] in [pairs[i]]) == eq, "membership agrees with equality")
    x.prove(not (pairs[0] == tuple(elems[0])), "no pair equals something else")
    x.prove(pairs[0] != tuple(elems[0]), "no pair equals something else")
    x.prove(x.Eq(pairs[0] == Sub(*elems[n - 1]), pairs[0] == pairs[n - 1]), "subclasses")


def mutate(x):
    a, b, c, d = tokens(x, "a", 4, 4)
    p, q = Pair(a, b), Pair(a, b)
    p.set(c, d)
    x.prove(x.And(x.Eq(p.source, c), x.Eq(p.target, d)), "set both")
    x.prove(x.And(x.Eq(q.source, a), x.Eq(q.target, b)), "another pair is not affected")
    p.set(target=a)
    x.prove(p.source is None, "omitted members become None")
    x.prove(x.Eq(p.target, a), "set target")
    p.set(source=b)
    x.prove(p.target is None, "omitted members become None")
    x.prove(x.Eq(p.source, b), "set source")
    p.target = c
    x.prove(x.And(*[x.Eq(u, v) for u, v in zip(p, (b, c))]), "assignable members")
    x.prove(list(Pair()) == [None, None], "empty pair")


def jobs(tier):
    return {"tokens": (equality, dict(n=2, kinds="tt")),
            "three": (equality, dict(n=3, kinds="ttt")),
            "ints": (equality, dict(n=2, kinds="ii")),
            "mixed": (equality, dict(n=2, kinds="ti")),
            "set": (mutate, {})}
