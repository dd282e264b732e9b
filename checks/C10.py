# -*- coding: utf-8 -*-
"""C10  precision, recall, F-score and their averages"""
from helpers import *
from StringIO import StringIO
from scratch import Scratch
from daeso.pgc.evaluate import AlignEval, AlignCounts, AlignCountsTable

META = {
    "bounds": {"quick": "one set of counts: all integers 0 <= common <= true, predicted and every real beta in [0,1]; tables of 1 to 4 rows with arbitrary real measures in [0,1] and of 1 or 2 rows with arbitrary counts; evaluations of 1 or 2 relations and up to 2 corpora with arbitrary counts; a table or an evaluation evaluated once more, also after corpora were added to it; reports of 1 to 3 relations and 1 or 2 corpora with counts from five triples",
               "thorough": "tables of up to 6 rows with arbitrary measures and of 3 rows with arbitrary counts; evaluations of 3 relations"},
    "outside": "evaluation of no corpora at all; the printed layout other than rows and numbers",
    "assumptions": ["floating-point numbers are taken as reals: rounding is outside the claim",
                    "counts satisfy common <= true and common <= predicted, which C09 establishes"],
}
KEYS = AlignCounts.count_keys
MEAS = AlignCounts.measure_keys


def ratio(x, value, num, den, msg):
    """value == num/den, or 0 if den is 0"""
    x.prove(x.ite(x.Eq(den, 0), x.Close(value, 0), x.Close(value * den, num)), msg)


def put(x, row, name):
    t, p, c = x.int(name + "-true", 0), x.int(name + "-pred", 0), x.int(name + "-common", 0)
    x.assume(x.And(x.Le(c, t), x.Le(c, p)))
    row.counts["true"], row.counts["pred"], row.counts["common"] = t, p, c
    return t, p, c


def check(x, m, t, p, c):
    ratio(x, m["prec"], c, p, "precision is common / predicted")
    ratio(x, m["rec"], c, t, "recall is common / true")
    ratio(x, m["f"], 2 * c, t + p, "F is the harmonic mean of precision and recall")


def measures(x, beta):
    row = AlignCounts()
    t, p, c = put(x, row, "a")
    if beta is None:
        row.run_eval()
        b = 1
    else:
        b = x.real("beta", 0, 1) if beta == "any" else beta
        row.run_eval(beta=b)
    m = row.measures
    x.observe([m[k] for k in MEAS] if beta != "any" else None)
    ratio(x, m["prec"], c, p, "precision is common / predicted")
    ratio(x, m["rec"], c, t, "recall is common / true")
    if beta != "any":
        ratio(x, m["f"], (b * b + 1) * c, b * b * t + p, "F by its definition")
    else:
        x.prove(x.ite(x.Eq(c, 0), x.Eq(m["f"], 0),
                      x.Close(m["f"] * (b * b * m["prec"] + m["rec"]), (b * b + 1) * m["prec"] * m["rec"])),
                "F by its definition")
    for k in MEAS:
        x.prove(x.And(x.Le(0, m[k]), x.Le(m[k], 1)), k + " is between 0 and 1")
    lo, hi = x.Min(m["prec"], m["rec"]), x.Max(m["prec"], m["rec"])
    x.prove(x.And(x.Le(lo, m["f"]), x.Le(m["f"], hi)), "F is between precision and recall")
    if beta is None:
        x.prove(x.Eq(x.Eq(m["f"], 1), x.And(x.Eq(t, c), x.Eq(p, c), x.Lt(0, c))) if x.symbolic else True,
                "F is 1 only for equal alignments")


class Free(AlignCounts):
    """a row with arbitrary measures"""
    def run_eval(self, **kw):
        self.measures.update(self.free)


def stats(x, values, s, mean, msg, centre=None):
    """s: mean, var and sd of the values; the deviation is from centre"""
    n = len(values)
    if centre is None:
        x.prove(x.Close(s["mean"] * n, sum(values)), "mean of " + msg)
        x.prove(x.And(*[x.Le(x.Min(*values), s["mean"]), x.Le(s["mean"], x.Max(*values))]),
                "mean lies within the values")
    m = s["mean"] if centre is None else centre
    dev = sum([(v - m) * (v - m) for v in values])
    if n == 1:
        x.prove(x.Eq(s["var"], 0), "variance of one value is 0")
    else:
        x.prove(x.Close(s["var"] * (n - 1), dev), "sample variance of " + msg)
    x.prove(x.And(x.Le(0, s["sd"]), x.Close(s["sd"] * s["sd"], s["var"])), "standard deviation of " + msg)


def free(x, n):
    table = AlignCountsTable()
    rows = []
    for i in range(n):
        row = Free()
        put(x, row, "row%d" % i)
        row.free = dict([(k, x.real("%s%d" % (k, i), 0, 1)) for k in MEAS])
        table.append(row)
    table.run_eval()
    for k in MEAS:
        s = table.measure_stats[k]
        stats(x, [r.free[k] for r in table], s["macro"], None, k)
        stats(x, [r.free[k] for r in table], s["micro"], None, k, centre=s["micro"]["mean"])


def same_as(x, got, tot):
    """the measures are those of the counts tot (which are right by the harness measures)"""
    row = AlignCounts()
    row.counts.update(tot)
    row.run_eval()
    for k in MEAS:
        x.prove(x.Close(got[k], row.measures[k]), "micro mean: the measure of the summed counts")


def micro(x, table):
    tot = dict([(k, sum([r.counts[k] for r in table])) for k in KEYS])
    same_as(x, dict([(k, table.measure_stats[k]["micro"]["mean"]) for k in MEAS]), tot)
    for k in KEYS:
        x.prove(x.Eq(table.count_stats[k]["sum"], tot[k]), "sum of counts")


def counted(x, n, early=()):
    """early: the rows after which the table is evaluated already"""
    table = AlignCountsTable()
    for i in range(n):
        row = AlignCounts()
        put(x, row, "row%d" % i)
        table.append(row)
        if i in early:
            table.run_eval()
    table.run_eval()
    for r in table:
        check(x, r.measures, r.counts["true"], r.counts["pred"], r.counts["common"])
    micro(x, table)
    for k in KEYS:
        stats(x, [r.counts[k] for r in table], table.count_stats[k], None, k)
    for k in MEAS:
        s = table.measure_stats[k]
        stats(x, [r.measures[k] for r in table], s["macro"], None, k)
        if n < 2:
            x.prove(x.Eq(s["micro"]["mean"], s["macro"]["mean"]), "one row: micro is macro")


def whole(x, nrel, n, early=False):
    rels = ["rel%d" % i for i in range(nrel)]
    ev = AlignEval(relations=rels)
    for i in range(n):
        for rel in rels + [AlignEval.any_rel]:
            row = AlignCounts()
            put(x, row, "%s-%d" % (rel, i))
            ev[rel].append(row)
        if early:
            ev.run_eval()
    ev.run_eval()
    tot = {}
    for k in KEYS:
        tot[k] = sum([r.counts[k] for rel in rels for r in ev[rel]])
        x.prove(x.Eq(ev.count_stats[k]["sum"], tot[k]), "sums over the relations")
    same_as(x, dict([(k, ev.measure_stats[k]["micro"]["mean"]) for k in MEAS]), tot)
    for rel in rels + [AlignEval.any_rel]:
        micro(x, ev[rel])
    for k in MEAS:
        x.prove(x.Close(ev.measure_stats[k]["macro"]["mean"] * nrel,
                        sum([ev[rel].measure_stats[k]["micro"]["mean"] for rel in rels])),
                "macro mean is the mean over the relations")


def rows_of(text):
    """name and numbers of the lines of a report that end in three numbers"""
    out = []
    for line in text.split("\n"):
        parts = line.rsplit(None, 3)
        try:
            numbers = [float(p) for p in parts[1:]]
        except ValueError:
            continue
        if len(numbers) == 3:
            out.append((parts[0].strip(), numbers))
    return out


def report(x, nrel, n):
    """the report that is written has the numbers that were calculated"""
    rels = ["equals", "restates", "intersects"][:nrel]
    ev = AlignEval(relations=rels)
    some = [(0, 0, 0), (3, 4, 2), (7, 3, 3), (2, 0, 0), (12, 13, 11)]
    for i in range(n):
        ev.names.append("corpus %d of all" % i)
        for j, rel in enumerate(rels + [AlignEval.any_rel]):
            row = AlignCounts()
            at = x.choice("%s-%d" % (rel, i), 0, len(some) - 1) if i + j < 2 else (i * 3 + j) % len(some)
            row.counts.update(zip(("true", "pred", "common"), some[at]))
            ev[rel].append(row)
    ev.run_eval()
    want = []
    for rel in [AlignEval.any_rel] + rels:
        t = ev[rel]
        for name, r in zip(ev.names, t):
            want.append((name, [r.counts[k] for k in KEYS]))
        for s in ("sum", "mean", "var", "sd"):
            want.append((s.capitalize() + ":", [t.count_stats[k][s] for k in KEYS]))
        for name, r in zip(ev.names, t):
            want.append((name, [100 * r.measures[k] for k in MEAS]))
        for method in ("macro", "micro"):
            for s in ("mean", "var", "sd"):
                want.append(("%s %s:" % (method.capitalize(), s.capitalize()),
                             [100 * t.measure_stats[k][method][s] for k in MEAS]))
    for rel in rels:
        want.append((rel, [ev[rel].count_stats[k]["sum"] for k in KEYS]))
    want.append(("Sum:", [ev.count_stats[k]["sum"] for k in KEYS]))
    for rel in rels:
        want.append((rel, [100 * ev[rel].measure_stats[k]["micro"]["mean"] for k in MEAS]))
    for method in ("macro", "micro"):
        want.append((method.capitalize() + " Mean:", [100 * ev.measure_stats[k][method]["mean"] for k in MEAS]))
    out = StringIO()
    ev.write(out)
    got = rows_of(out.getvalue())
    x.prove([g[0] for g in got] == [w[0] for w in want], "rows of the report")
    x.prove(len(got) == len(want) and all([abs(a - b) < 0.0051 for g, w in zip(got, want) for a, b in zip(g[1], w[1])]),
            "numbers of the report")
    with Scratch({}) as s:
        ev.write(s.dir + "/report")
        with open(s.dir + "/report") as f:
            x.prove(f.read() == out.getvalue(), "the report is complete in the file")


for f in (measures, free, counted, whole):
    f.opts = {"numbers": True, "timeout_ms": 120000}


def jobs(tier):
    out = {"measures": (measures, dict(beta=None)), "measures-any-beta": (measures, dict(beta="any"))}
    for b in (0, 0.5, 1):
        out["measures-%s" % b] = (measures, dict(beta=b))
    for r, n in ((1, 1), (2, 1), (3, 2)):
        out["report-%d-%d" % (r, n)] = (report, dict(nrel=r, n=n))
    for n in (1, 2, 3, 4) + ((5, 6) if tier == "thorough" else ()):
        out["free-%d" % n] = (free, dict(n=n))
    for n in (1, 2) + ((3,) if tier == "thorough" else ()):
        out["counted-%d" % n] = (counted, dict(n=n))
    for early in ((0,), (1,), (0, 1)):
        out["counted-2-again-" + "".join(map(str, early))] = (counted, dict(n=2, early=early))
    out["counted-1-again"] = (counted, dict(n=1, early=(0,)))
    out["whole-1-1-again"] = (whole, dict(nrel=1, n=1, early=True))
    out["whole-1-2-again"] = (whole, dict(nrel=1, n=2, early=True))
    for r, n in ((1, 1), (2, 1), (1, 2)) + (((3, 1),) if tier == "thorough" else ()):
        out["whole-%d-%d" % (r, n)] = (whole, dict(nrel=r, n=n))
    return out
