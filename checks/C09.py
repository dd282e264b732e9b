# -*- coding: utf-8 -*-
"""C09  counts of the alignment evaluation"""
from helpers import *
from corpora import *
from daeso.pgc.evaluate import AlignEval, AlignCounts

META = {
    "bounds": {"quick": "corpora of up to 2 graph pairs with up to 3 alignments together (true + predicted; 4 over two pairs); two relations (three for 2+1 alignments); all node names and relations symbolic; up to 2 evaluated corpora",
               "thorough": "in addition 2 x 2, 3 x 1 and 1 x 3 alignments in one pair"},
    "outside": "larger corpora (counts are sums over pairs)",
    "assumptions": ["an alignment has a non-empty relation, which the evaluation was told about"],
}

RELS = ["t000", "t001", "t002"]


def corpus(x, name, sizes, k, rels):
    pairs, al = [], []
    for i, n in enumerate(sizes):
        gp = graph_pair((str(i + 1), str(i + 1)))
        al.append(align(x, gp, "%s%d" % (name, i), n, k, rels))
        pairs.append(gp)
    return ParallelGraphCorpus(pairs, list(rels)), al


def rel_tokens(x, n):
    """the relation names as tokens, so that they share the hash of the others"""
    out = []
    for i in range(n):
        t = x.token("relation%d" % i, n)
        x.assume(x.Eq(t, RELS[i]))
        out.append(t)
    return out


def counts(x, shapes, nrel):
    x.canonical_tokens()
    rels = rel_tokens(x, nrel)
    ev = AlignEval(relations=rels)
    wanted = []
    for c, (ts, ps) in enumerate(shapes):
        k = 2 * max([sum(ts), sum(ps), 1])
        true, ta = corpus(x, "true%d-" % c, ts, k, rels)
        pred, pa = corpus(x, "pred%d-" % c, ps, k, rels)
        if c % 2:
            ev.add(true, pred, "name%d" % c)
        else:
            ev.add(true, pred)
        wanted.append((ta, pa))
    x.prove(len(ev[AlignEval.any_rel]) == len(shapes), "a row for every corpus")
    x.prove(len(ev.names) == len(shapes), "a name for every corpus")
    x.prove(len(ev) == nrel + 1, "a table for every relation")
    total = [0] * 3
    for c, (ta, pa) in enumerate(wanted):
        got = ev[AlignEval.any_rel][c].counts
        x.prove(got["true"] == sum(map(len, ta)), "true alignments")
        x.prove(got["pred"] == sum(map(len, pa)), "predicted alignments")
        x.prove(x.Eq(got["common"], count(x, [has(x, s, t, q) for p, q in zip(ta, pa) for s, t, r in p])),
                "alignments in common, whatever their relation")
        x.observe(got)
        per = []
        for rel in rels:
            got = ev[rel][c].counts
            per.append(got)
            x.prove(x.Eq(got["true"], count(x, [x.Eq(r, rel) for p in ta for s, t, r in p])),
                    "true alignments of a relation")
            x.prove(x.Eq(got["pred"], count(x, [x.Eq(r, rel) for p in pa for s, t, r in p])),
                    "predicted alignments of a relation")
            x.prove(x.Eq(got["common"], count(x, [x.And(x.Eq(r, rel), has3(x, s, t, r, q))
                                                  for p, q in zip(ta, pa) for s, t, r in p])),
                    "alignments of a relation in common")
            x.observe(got)
            x.prove(got["common"] <= got["true"] and got["common"] <= got["pred"], "common <= true, predicted")
        whole = ev[AlignEval.any_rel][c].counts
        x.prove(sum([p["true"] for p in per]) == whole["true"], "relations sum up to all")
        x.prove(sum([p["pred"] for p in per]) == whole["pred"], "relations sum up to all")
        x.prove(sum([p["common"] for p in per]) <= whole["common"] <= min(whole["true"], whole["pred"]),
                "common alignments are bounded")
        for i, key in enumerate(AlignCounts.count_keys):
            total[i] += sum([p[key] for p in per])
    ev.run_eval()
    for i, key in enumerate(AlignCounts.count_keys):
        x.prove(ev.count_stats[key]["sum"] == total[i], "overall sums")
        for rel in rels:
            x.prove(ev[rel].count_stats[key]["sum"] == sum([row.counts[key] for row in ev[rel]]), "sums over corpora")


def swapped(x, n, m):
    x.canonical_tokens()
    rels = rel_tokens(x, 2)
    k = 2 * max(n, m)
    a, aa = corpus(x, "a", (n,), k, rels)
    b, bb = corpus(x, "b", (m,), k, rels)
    e, f = AlignEval(relations=rels), AlignEval(relations=rels)
    e.add(a, b)
    f.add(b, a)
    e.run_eval()
    f.run_eval()
    for key in rels + [AlignEval.any_rel]:
        p, q = e[key][0], f[key][0]
        x.prove(p.counts["true"] == q.counts["pred"] and p.counts["pred"] == q.counts["true"] and
                p.counts["common"] == q.counts["common"], "swapping the corpora swaps the counts")
        x.prove(p.measures["prec"] == q.measures["rec"] and p.measures["rec"] == q.measures["prec"],
                "swapping the corpora swaps precision and recall")
        x.prove(abs(p.measures["f"] - q.measures["f"]) < 1e-9, "swapping the corpora keeps F")
        x.observe(p.measures)


def unequal(x):
    n, m = x.choice("n", 0, 3), x.choice("m", 0, 3)
    a = ParallelGraphCorpus([graph_pair() for i in range(n)], ["r"])
    b = ParallelGraphCorpus([graph_pair() for i in range(m)], ["r"])
    e = AlignEval(relations=["r"])
    bad = raises(lambda: e.add(a, b), AssertionError)
    x.prove(bad == (n != m), "corpora of different length are rejected")
    x.prove(len(e.names) == (0 if bad else 1) and len(e["r"]) == len(e.names), "a rejected corpus leaves no row")


def jobs(tier):
    out = {"unequal": (unequal, {})}
    shapes = [[((n,), (m,))] for n in range(3) for m in range(3) if n + m < 4]
    shapes += [[((1, 1), (1, 1))], [((1, 0), (1, 1))], [((2, 0), (0, 2))], [((1, 1), (2, 0))],
               [((1,), (1,)), ((1,), (1,))], [((0,), (1,)), ((1,), (1,))], [((1,), (1,)), ((1,), (0,))], [((), ())]]
    for s in shapes:
        out["counts-" + str(s).replace(" ", "")] = (counts, dict(shapes=s, nrel=2))
    out["counts-three-relations"] = (counts, dict(shapes=[((2,), (1,))], nrel=3))
    out["counts-no-relations"] = (counts, dict(shapes=[((0,), (0,))], nrel=1))
    for n, m in ((1, 1), (1, 2), (2, 1)):
        out["swapped-%d-%d" % (n, m)] = (swapped, dict(n=n, m=m))
    if tier == "thorough":
        for s in ([((2,), (2,))], [((3,), (1,))], [((1,), (3,))]):
            out["counts-" + str(s).replace(" ", "")] = (counts, dict(shapes=s, nrel=2))
        out["swapped-2-2"] = (swapped, dict(n=2, m=2))
        out["swapped-3-1"] = (swapped, dict(n=3, m=1))
        out["counts-12-rel3"] = (counts, dict(shapes=[((1,), (2,))], nrel=3))
    return out
