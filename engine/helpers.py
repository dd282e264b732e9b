# -*- coding: utf-8 -*-
"""oracle helpers; everything works on proxies and on plain values"""


def tokens(x, name, n, k):
    return [x.token("%s%d" % (name, i), k) for i in range(n)]


def member(x, a, seq):
    return x.Or(*[x.Eq(a, b) for b in seq]) if seq else False


def count(x, conds):
    return x.Sum([x.ite(c, 1, 0) for c in conds])


def distinct_flags(x, seq):
    """flags marking the first occurrence of every value in seq"""
    return [x.Not(member(x, a, seq[:i])) for i, a in enumerate(seq)]


def n_types(x, seq):
    return count(x, distinct_flags(x, seq))


def n_common_types(x, a, b):
    return count(x, [x.And(f, member(x, e, b))
                     for f, e in zip(distinct_flags(x, a), a)])


def same_seq(x, a, b):
    if len(a) != len(b):
        return False
    return x.And(*[x.Eq(p, q) for p, q in zip(a, b)]) if a else True


def ratio_is(x, value, num, den):
    """value == num/den for integer terms num, den (0 when den is 0),
    stated without division"""
    return x.ite(x.Eq(den, 0), x.Close(value, 0), x.Close(value * den, num))


def raises(fn, *exc):
    """does fn() raise one of exc?  anything else propagates"""
    try:
        fn()
    except exc:
        return True
    return False
