# -*- coding: utf-8 -*-
"""C14  statistics tables"""
import os
import shutil
import sys
import tempfile
from StringIO import StringIO
from helpers import *
from daeso.stats.table import StatsTable, percent
from daeso.gb import gbstats
from daeso.pgc import pgcstats
from daeso.stats import corpus

META = {
    "first": ["overall-gb-1", "overall-pgc-1"],
    "bounds": {"quick": "both kinds of tables with 0 to 3 rows of arbitrary counts (all non-negative integers), each part at most its whole; growing by up to 3 rows twice; writing and reading tables of up to 2 rows, with counts of one to seven digits and labels of several lengths, into an empty table and after another table; a segment of two annotations of two parts with up to 3 files each, reported twice with every kind of target the second time",
               "thorough": "in addition 4 rows of arbitrary counts and 3 rows written and read"},
    "outside": "labels with white space and counts too wide for their column; the legend; the layout of columns",
    "assumptions": ["floating-point numbers are taken as reals: rounding is outside the claim",
                    "counts of parts do not exceed those of wholes, which C13 establishes"],
}

# column: (part, whole, factor)
GB = {"PGA": ("CGA", "CG", 100), "PGFP": ("CGFP", "CG", 100), "PGUR": ("CGUR", "CG", 100),
      "PGSA": ("CGSA", "CGA", 100), "PGMA": ("CGMA", "CGA", 100), "PNA": ("CNA", "CN", 100),
      "ATG": ("CT", "CG", 1), "ANG": ("CN", "CG", 1)}
PGC = {"PGPFU": ("CGPFU", "CGP", 100), "PGPFP": ("CGPFP", "CGP", 100), "PGPUR": ("CGPUR", "CGP", 100),
       "PEQ": ("CEQ", "CNP", 100), "PRE": ("CRE", "CNP", 100), "PGEN": ("CGEN", "CNP", 100),
       "PSPEC": ("CSPEC", "CNP", 100), "PINT": ("CINT", "CNP", 100)}
KINDS = {"gb": (gbstats.GbStatsTable, GB, gbstats.calc_percentages, "BANK"),
         "pgc": (pgcstats.PgcStatsTable, PGC, pgcstats.calc_percentages, "CORPUS")}


def counts(table):
    return [k for k in table.keys() if table[k].type == "count"]


def fill(x, table, defs, n):
    for i in range(n):
        for k in counts(table):
            table[k][i] = x.int("%s%d" % (k, i), 0)
        for k, (a, b, f) in defs.items():
            if f == 100:
                x.assume(x.Le(table[a][i], table[b][i]))


def ratio(x, value, a, b, f, msg, none):
    """value is f * a / b; without data it is 0, or nothing"""
    if value is None:
        x.prove(x.Eq(b, 0), msg + ": a figure whenever there is data")
        return
    x.prove(x.ite(x.Eq(b, 0), x.Eq(value, 0) if not none else False, x.Close(value * b, f * a)), msg)
    if f == 100:
        x.prove(x.And(x.Le(0, value), x.Le(value, 100)), msg + ": between 0 and 100")


def overall(x, kind, n):
    cls, defs, row_percentages, label = KINDS[kind]
    table = cls(size=n)
    fill(x, table, defs, n)
    given = dict([(k, list(table[k])) for k in counts(table)])
    for i in range(n):
        row_percentages(table, i)
    table.summarize()
    for k in counts(table):
        x.prove(len(table[k]) == n, "one value per row")
        x.prove(same_seq(x, table[k], given[k]), "counts are left alone")
        x.prove(x.Eq(table[k].overall, x.Sum(given[k])), "overall " + k)
    for k, (a, b, f) in sorted(defs.items()):
        x.prove(len(table[k]) == n, "one value per row")
        for i in range(n):
            ratio(x, table[k][i], given[a][i], given[b][i], f, k, False)
        ratio(x, table[k].overall, x.Sum(given[a]), x.Sum(given[b]), f, "overall " + k, True)
    x.prove(table[label].overall is None, "no overall label")
    x.observe([table[k].overall for k in counts(table)])


overall.opts = {"numbers": True}


def grow(x, kind):
    cls, defs, row_percentages, label = KINDS[kind]
    n = x.choice("size", 0, 3)
    table = cls(size=n) if n or x.flag("size given") else cls()
    steps = [x.choice("grow%d" % i, 0, 3) for i in range(2)]
    marks = []
    for k in steps:
        if n:
            key = x.pick("mark", counts(table))
            table[key][n - 1] = v = x.int("v%d" % len(marks))
            marks.append((key, n - 1, v))
        x.prove(table.is_empty() == (n == 0), "a table without rows is empty")
        table.grow(k)
        n += k
        for c in table.keys():
            x.prove(len(table[c]) == n, "one value per row in every column")
            x.prove(table[c].label == c, "columns know their label")
    at = dict([((k, i), v) for k, i, v in marks])
    for c in table.keys():
        for i in range(n):
            empty = {"string": "", "count": 0}.get(table[c].type, 0.0)
            x.prove(x.Eq(table[c][i], at.get((c, i), empty)), "rows keep their values, new rows are empty")
    x.observe(n)


NUMBERS = [0, 7, 1234567]
NAMES = ["a.xml", "a-very----long-name-of-a-file.xml"]


def written(x, kind, sizes):
    """tables are written, and read into one table"""
    cls, defs, row_percentages, label = KINDS[kind]
    whole = cls()
    rows = []
    for t, n in enumerate(sizes):
        table = cls(size=n)
        for i in range(n):
            k = x.pick("number%d-%d" % (t, i), NUMBERS)
            name = x.pick("name%d-%d" % (t, i), NAMES)
            table[label][i] = name
            for j, c in enumerate(counts(table)):
                table[c][i] = k // (j + 1) if j % 2 else k
            row_percentages(table, i)
        if n:
            table.summarize()
        out = StringIO()
        table.write(legenda=x.flag("legend%d" % t), out=out)
        whole.read(StringIO(out.getvalue()))
        rows += [dict([(c, table[c][i]) for c in table.keys()]) for i in range(n)]
    for c in whole.keys():
        x.prove(len(whole[c]) == len(rows), "one value per row in every column")
        for i, r in enumerate(rows):
            if whole[c].type in ("string", "count"):
                x.prove(whole[c][i] == r[c], "read back: " + c)
            else:
                x.prove(abs(whole[c][i] - r[c]) <= 0.00501, "read back: " + c)
    whole.summarize()
    for c in counts(whole):
        x.prove(whole[c].overall == sum([r[c] for r in rows]), "overall of what was read")
    x.observe([list(whole[c]) for c in whole.keys()])


class Nowhere(object):
    def write(self, s):
        pass


def segment(x, targets):
    """tables per part of a corpus segment, per annotation, and overall; when
    targets are given, the tables of the other parts are those of before"""
    parts = ["first", "deep/second"]
    # the tables are called after the last directory
    where = "/corpora/some.where" if x.flag("dot") else "/corpora/somewhere"
    annots = ["ma", "na"]

    def wanted(a, p):
        return not targets or "all" in targets or a in targets or p in targets or a + "." + p in targets

    def produce(run):
        tables, rows = {}, {}
        for a in annots:
            for p in parts:
                if run and not wanted(a, p):
                    continue
                if targets:
                    # with two runs there are choices for the first part only
                    n = x.choice("run%d %s %s" % (run, a, p), 1, 2) if p == "first" else 1
                else:
                    n = x.choice("%s %s" % (a, p), 0, 2 if p == "first" else 1)
                pgc, gb = pgcstats.PgcStatsTable(size=n), gbstats.GbStatsTable(size=n)
                rows[a, p] = []
                for i in range(n):
                    pgc["CORPUS"][i] = "%s%d%d.pgc" % (p[:4], run, i)
                    gb["BANK"][i] = "%s%d%d.xml" % (p[:4], run, i)
                    if targets:
                        k = 100 * run + i
                    else:
                        k = x.pick("pairs %s %s %d" % (a, p, i), [0, 1234])
                    pgc["CGP"][i] = k
                    pgc["CGPFU"][i] = k // 2
                    gb["CG"][i] = k * 2
                    gb["CGA"][i] = k
                    pgcstats.calc_percentages(pgc, i)
                    gbstats.calc_percentages(gb, i)
                    rows[a, p].append((pgc["CORPUS"][i], gb["BANK"][i], k))
                pgc.summarize()
                gb.summarize()
                tables[where + "/pgc/%s/%s" % (a, p)] = (pgc, gb)
        return tables, rows

    def stats(pgc_dir, pattern, with_unaligned_roots=False):
        asked[pgc_dir] = with_unaligned_roots
        return tables[pgc_dir]
    old = corpus.stats, os.getcwd(), sys.stdout, sys.stderr
    scratch = tempfile.mkdtemp()
    found = {}
    try:
        os.chdir(scratch)
        corpus.stats = stats
        for run in range(2 if targets else 1):
            tables, rows = produce(run)
            found.update(rows)
            asked = {}
            sys.stdout = sys.stderr = Nowhere()
            corpus.corpus_seg_stats(targets if run else None, where + "/", annots, parts)
            sys.stdout, sys.stderr = old[2:]
            x.prove(asked == dict([(d, "/na/" in d) for d in tables]),
                    "every part asked for of every annotation is counted, no other")
        for which in annots + ["all"]:
            rows = []
            for a in annots:
                for p in parts:
                    if which in (a, "all"):
                        rows += found[a, p]
            seg = "stats.%s." % where.split("/")[-1] + ("" if which == "all" else which + ".")
            for kind, label, count, part, pc, at, f in (
                    ("pgc", "CORPUS", "CGP", "CGPFU", "PGPFU", 0, 1), ("gb", "BANK", "CG", "CGA", "PGA", 1, 2)):
                if not os.path.exists(seg + kind):
                    x.prove(not rows, "a table is written whenever there is data")
                    continue
                table = KINDS[kind][0]()
                with open(seg + kind) as inf:
                    text = inf.read()
                table.read(StringIO(text))
                x.prove(list(table[label]) == [r[at] for r in rows], "a row for every file, in order")
                x.prove(list(table[count]) == [r[2] * f for r in rows], "the counts of every file")
                last = text.split("-" * 20)[-1].strip("-\n").split("\n")[0].split()
                tot = sum([r[2] for r in rows])
                sub = sum([r[2] // 2 if f == 1 else r[2] for r in rows])
                x.prove(str(tot * f) == last[0] and str(sub) == last[1], "overall counts of the whole")
                if tot:
                    x.prove("%.2f" % (100.0 * sub / (tot * f)) in last, "overall percentage of the whole")
        x.observe(sorted(found.items()))
    finally:
        corpus.stats = old[0]
        os.chdir(old[1])
        sys.stdout, sys.stderr = old[2:]
        shutil.rmtree(scratch)


def directory(x):
    """the tables of the files of a directory that match the pattern"""
    old = corpus.pgc_stats, os.getcwd()
    scratch = os.path.realpath(tempfile.mkdtemp())
    here = os.path.join(scratch, "here")
    there = os.path.join(scratch, "there")
    os.mkdir(here)
    names = []
    if x.flag("directory"):
        os.mkdir(there)
        for n in ("b.pgc", "a.pgc", "c.xml"):
            if x.flag("file " + n):
                with open(os.path.join(there, n), "w") as out:
                    out.write("x")
                names.append(n)
    pattern = x.pick("pattern", ["*.pgc", "*", "a*"])
    got = []

    def pgc_stats(files, **options):
        files = list(files)
        for n in files:
            x.prove(os.path.isfile(n), "run where the files are")
        got.append((sorted(files), options.get("with_unaligned_roots", False)))
        return "corpus table", "bank table"
    unaligned = x.flag("unaligned")
    try:
        os.chdir(here)
        corpus.pgc_stats = pgc_stats
        res = corpus.stats(there, pattern, unaligned)
        x.prove(os.path.realpath(os.getcwd()) == here, "the current directory is what it was")
    finally:
        corpus.pgc_stats = old[0]
        os.chdir(old[1])
        shutil.rmtree(scratch)
    x.prove(tuple(res) == ("corpus table", "bank table"), "both tables are returned")
    want = [n for n in sorted(names) if pattern == "*" or (n.endswith(".pgc") and pattern[0] in ("*", n[0]))]
    x.prove(got == [(want, unaligned)], "the files that match, and the option")
    x.observe(got)


TARGETS = {"annotation": ["na"], "part": ["first"], "one": ["ma.first"], "both": ["ma", "na.deep/second"], "all": ["all"]}


def jobs(tier):
    out = {"segment": (segment, dict(targets=None)), "directory": (directory, {})}
    for name in TARGETS:
        out["segment-" + name] = (segment, dict(targets=TARGETS[name]))
    for kind in ("gb", "pgc"):
        for n in range(0, 5 if tier == "thorough" else 4):
            out["overall-%s-%d" % (kind, n)] = (overall, dict(kind=kind, n=n))
        out["grow-" + kind] = (grow, dict(kind=kind))
        for sizes in [(1,), (2,), (1, 1), (0, 1)] + ([(3,), (2, 1)] if tier == "thorough" else []):
            out["written-%s-%s" % (kind, "-".join(map(str, sizes)))] = (written, dict(kind=kind, sizes=sizes))
    return out
