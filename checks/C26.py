# -*- coding: utf-8 -*-
"""C26  n-grams, padding and skip bigrams"""
import sys
from helpers import *
from daeso.string import ngram as m
from daeso.string import sgram as sg

META = {
    "bounds": {"quick": "token sequences of length 0..5, n = 1..4, padding 0..3, distance limits 0..4 and unlimited; lists, tuples, strings and unicode strings (over 2 characters, length <= 3)",
               "thorough": "token sequences of length 0..7, n = 1..6"},
    "outside": "longer sequences",
    "assumptions": ["sequence length, n, padding and limit are solver-chosen integers, explored value by value; the tokens stay symbolic"],
}


def seq_input(x, top, kind):
    n = x.choice("length", 0, top)
    if kind in (str, unicode):
        return kind("").join([x.pick("c%d" % i, kind("xy")) for i in range(n)])
    return kind(tokens(x, "a", n, n + 1))


def eq_lists(x, got, want):
    if len(got) != len(want):
        return False
    return x.And(*[same_seq(x, list(g), list(w)) for g, w in zip(got, want)]) if want else True


def grams(x, kind, top, ntop):
    a = seq_input(x, top, kind)
    n = x.choice("n", 1, ntop)
    p = x.choice("pad", 0, 3)
    keep = list(a)
    before = list(a)
    padded = m.pad(a, p)
    x.prove(type(padded) is kind, "padding keeps the type")
    x.prove(same_seq(x, list(padded), ["_"] * p + before + ["_"] * p), "padding on both sides")
    got = m.n_gram_slices(a, n, pad_size=p)
    whole = ["_"] * p + before + ["_"] * p
    want = []
    for i in range(len(whole)):
        if i + n <= len(whole):
            want.append(whole[i:i + n])
    x.observe([list(g) for g in got])
    x.prove(all(type(g) is kind for g in got), "n-grams have the type of the sequence")
    x.prove(eq_lists(x, got, want), "exactly the windows of length n, in order")
    got = m.n_gram_slices(a, n)
    x.prove(len(got) == max(0, len(before) - n + 1), "no padding by default")
    x.prove(same_seq(x, list(a), keep), "argument unchanged")


def ranges(x, kind):
    a = seq_input(x, 3, kind)
    ns = x.pick("range", [[1], [2], [1, 2], [3, 1], [1, 2, 3], []])
    mode = x.pick("mode", ["none", "default", "given"])
    if mode == "none":
        got = m.n_gram_slices_range(a, ns)
        pads = [0] * len(ns)
    elif mode == "default":
        got = m.n_gram_slices_range(a, ns, pad=True)
        pads = [n - 1 for n in ns]
    else:
        pads = [x.choice("pad%d" % i, 0, 2) for i in range(len(ns))]
        got = m.n_gram_slices_range(a, ns, pad=True, pad_sizes=pads)
        if not ns:
            pads = []
    x.prove(sorted(got.keys()) == sorted(ns), "one entry per n")
    for n, p in zip(ns, pads):
        whole = ["_"] * p + list(a) + ["_"] * p
        want = [whole[i:i + n] for i in range(len(whole) - n + 1)]
        x.prove(eq_lists(x, got[n], want), "n-grams of every n, padded by n-1 by default")
    x.prove(True, "range")


def strings(x):
    n = x.choice("length", 0, 4)
    a = [x.pick("c%d" % i, ["x", "yy"]) for i in range(n)]
    k = x.choice("n", 1, 3)
    p = x.choice("pad", 0, 2)
    got = m.n_gram_strings(a, k, pad_size=p, pad_string="#", separator="+")
    whole = ["#"] * p + a + ["#"] * p
    x.observe(got)
    x.prove(got == ["+".join(whole[i:i + k]) for i in range(len(whole) - k + 1)],
            "n-grams joined by the separator")


def skips(x, kind, top):
    a = seq_input(x, top, kind)
    keep = list(a)
    limit = x.pick("limit", [None, 0, 1, 2, 3, 4])
    if limit is None:
        got = sg.skip_bigram_slices(a)
        limit = sys.maxint
    else:
        got = sg.skip_bigram_slices(a, limit)
    want = [[keep[i], keep[j]] for i in range(len(keep)) for j in range(i + 1, len(keep))
            if j - i - 1 <= limit]
    x.observe([list(g) for g in got])
    x.prove(eq_lists(x, got, want), "exactly the ordered pairs with at most limit elements between")
    x.prove(same_seq(x, list(a), keep), "argument unchanged")
    got = sg.padded_skip_bigram_slices(a, limit)
    keep = ["_"] + keep + ["_"]
    want = [[keep[i], keep[j]] for i in range(len(keep)) for j in range(i + 1, len(keep))
            if j - i - 1 <= limit]
    x.prove(eq_lists(x, got, want), "padded skip bigrams")


def jobs(tier):
    t = tier == "thorough"
    out = {"strings": (strings, {})}
    for kind in (list, tuple, str, unicode):
        top = 3 if kind in (str, unicode) else (7 if t else 5)
        out["grams-" + kind.__name__] = (grams, dict(kind=kind, top=top, ntop=6 if t else 4))
        out["ranges-" + kind.__name__] = (ranges, dict(kind=kind))
        out["skips-" + kind.__name__] = (skips, dict(kind=kind, top=top))
    return out
