# -*- coding: utf-8 -*-
"""C34  optimal assignment"""
from itertools import permutations
from helpers import *
from daeso.thirdparty.munkres import Munkres, make_cost_matrix

META = {
    "first": ["assign-1-2", "assign-2-2"],
    "bounds": {"quick": "all matrices of up to 3 by 3 with integer costs between -1000 and 1000; used once and twice; padding of rows of up to 3 columns",
               "thorough": "in addition all 2 by 4 matrices, and all 2 by 2 and 3 by 3 matrices with real costs"},
    "outside": "larger matrices; costs beyond the largest machine integer; empty matrices; rounding",
    "assumptions": ["floating-point numbers are taken as reals"],
}


def matrix(x, name, n, k, lo, hi, real=False):
    if real:
        return [[x.real("%s%d-%d" % (name, i, j), lo, hi) for j in range(k)] for i in range(n)]
    return [[x.int("%s%d-%d" % (name, i, j), lo, hi) for j in range(k)] for i in range(n)]


def best(c):
    """the costs of all complete assignments"""
    n, k = len(c), len(c[0])
    if n <= k:
        return [[c[i][p[i]] for i in range(n)] for p in permutations(range(k), n)]
    return [[c[p[j]][j] for j in range(k)] for p in permutations(range(n), k)]


def judge(x, c, copy, got):
    n, k = len(c), len(c[0])
    x.prove(len(c) == len(copy) and all([len(a) == len(b) for a, b in zip(c, copy)]), "the matrix keeps its size")
    for a, b in zip(c, copy):
        x.prove(same_seq(x, a, b), "the matrix is left unchanged")
    x.prove(len(got) == min(n, k), "as many pairs as possible")
    x.prove(len(set([r for r, _ in got])) == len(got), "a row is assigned once")
    x.prove(len(set([r for _, r in got])) == len(got), "a column is assigned once")
    x.prove(all([0 <= r < n and 0 <= j < k for r, j in got]), "rows and columns of the matrix only")
    total = x.Sum([copy[r][j] for r, j in got])
    x.prove(x.And(*[x.Le(total, x.Sum(b)) for b in best(copy)]), "no assignment costs less")


def assign(x, n, k, lo, hi, real=False, twice=False):
    m = Munkres()
    if twice:
        # an earlier matrix, smaller, larger or of the same size
        size = x.choice("columns", 1, 3)
        m.compute([r[:size] for r in [[4, 1, 3], [2, 0, 5], [3, 2, 2]][:x.choice("rows", 1, 3)]])
    c = matrix(x, "c", n, k, lo, hi, real)
    copy = [list(r) for r in c]
    got = m.compute(c)
    judge(x, c, copy, got)
    x.observe(x.Sum([copy[r][j] for r, j in got]))


def both(x, n, k):
    """two matrices by the same instance"""
    m = Munkres()
    for name in "cd":
        c = matrix(x, name, n, k, 0, 1000)
        copy = [list(r) for r in c]
        judge(x, c, copy, m.compute(c))


def profit(x):
    p = matrix(x, "p", 2, 2, 0, 1000)
    top = x.Max(*(p[0] + p[1]))
    c = make_cost_matrix(p, lambda v: top - v)
    for i in range(2):
        for j in range(2):
            x.prove(x.Eq(c[i][j], top - p[i][j]), "every profit is converted")
    got = Munkres().compute(c)
    total = x.Sum([p[r][j] for r, j in got])
    x.prove(x.And(*[x.Le(x.Sum(b), total) for b in best(p)]), "no assignment has a higher profit")
    x.observe(total)


def pad(x, n):
    widths = [x.choice("width%d" % i, 0, 3) for i in range(n)]
    rows = [[x.int("v%d-%d" % (i, j)) for j in range(w)] for i, w in enumerate(widths)]
    copy = [list(r) for r in rows]
    v = x.int("pad")
    given = x.flag("value given")
    out = Munkres().pad_matrix(rows, v) if given else Munkres().pad_matrix(rows)
    size = max([n] + widths)
    x.prove(len(out) == size and all([len(r) == size for r in out]), "the matrix is square")
    for i in range(size):
        for j in range(size):
            want = copy[i][j] if i < n and j < widths[i] else v if given else 0
            x.prove(x.Eq(out[i][j], want), "cells keep their value, others get the one to pad with")
    for a, b in zip(rows, copy):
        x.prove(same_seq(x, a, b), "the matrix is left unchanged")
    x.observe(size)


def jobs(tier):
    out = {"profit": (profit, {})}
    for n in (1, 2, 3):
        out["pad-%d" % n] = (pad, dict(n=n))
        for k in (1, 2, 3):
            out["assign-%d-%d" % (n, k)] = (assign, dict(n=n, k=k, lo=-1000, hi=1000))
    out["same-size-twice"] = (both, dict(n=2, k=2))
    out["twice"] = (assign, dict(n=2, k=2, lo=0, hi=1000, twice=True))
    if tier == "thorough":
        out["assign-2-4"] = (assign, dict(n=2, k=4, lo=-1000, hi=1000))
        out["assign-3-3-real"] = (assign, dict(n=3, k=3, lo=-1000, hi=1000, real=True))
        out["assign-2-2-real"] = (assign, dict(n=2, k=2, lo=-1000, hi=1000, real=True))
    return out
