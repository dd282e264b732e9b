# -*- coding: utf-8 -*-
"""C30  Dutch spelling of numbers"""
from helpers import *
import ast
import imp
import re
import rewrite
import symx
from daeso.string import number

META = {
    "first": ["digits-4", "digits-3"],
    "bounds": {"quick": "all numbers of up to 10 digits, and those of up to 22 digits with at most one group of three digits that is not zero beside the first; with and without hundreds preferred for numbers of four digits",
               "thorough": "all numbers of up to 13 digits, and those of up to 24 digits with at most one group of three digits that is not zero beside the first"},
    "outside": "negative numbers; numbers of more than 24 digits",
    "assumptions": ["the decimal digits of the number are symbolic; they reach the code through stand-ins for str() and for the table of words, which is taken from the code; sampled paths are replayed with real numbers"],
}

UNITS = ("een twee drie vier vijf zes zeven acht negen tien elf twaalf dertien veertien vijftien "
         "zestien zeventien achttien negentien").split()
TENS = "twintig dertig veertig vijftig zestig zeventig tachtig negentig".split()
POWERS = ["duizend", "miljoen", "miljard", "biljoen", "biljard", "triljoen", "triljard"]
WORDS = dict([(w, i + 1) for i, w in enumerate(UNITS)] + [(w, 10 * i + 20) for i, w in enumerate(TENS)])


class Digits(object):
    """a string of decimal digits, some of them symbolic"""

    def __init__(self, x, ds):
        self.x, self.ds = x, ds

    def other(self, o):
        if isinstance(o, Digits):
            return o.ds
        if isinstance(o, (str, unicode)) and all([c in "0123456789" for c in o]):
            return [int(c) for c in o]
        return None

    def __len__(self):
        return len(self.ds)

    def __nonzero__(self):
        return bool(self.ds)

    def __getitem__(self, i):
        return Digits(self.x, self.ds[i] if isinstance(i, slice) else [self.ds[i]])

    def __iter__(self):
        return iter([Digits(self.x, [d]) for d in self.ds])

    def __add__(self, o):
        return Digits(self.x, self.ds + self.other(o))

    def __radd__(self, o):
        return Digits(self.x, self.other(o) + self.ds)

    def rjust(self, n, c):
        return Digits(self.x, [int(c)] * (n - len(self.ds)) + self.ds)

    def zfill(self, n):
        return self.rjust(n, "0")

    def __eq__(self, o):
        ds = self.other(o)
        if ds is None or len(ds) != len(self.ds):
            return False
        return self.x.fork(self.x.And(*[self.x.Eq(a, b) for a, b in zip(self.ds, ds)])) if ds else True

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise TypeError("symbolic digits as a key")

    def value(self):
        v = 0
        for d in self.ds:
            v = v * 10 + d
        return v


class Word(object):
    """the word of one of several entries of the table: (condition, word)"""

    def __init__(self, cases, key):
        self.cases = cases
        self.key = key


class Text(object):
    """words written one after another"""

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        return Text(self.parts + (o.parts if isinstance(o, Text) else [o] if o else []))

    def __radd__(self, o):
        return Text(([o] if o else []) + self.parts)

    def __nonzero__(self):
        raise TypeError("truth of a text")

    def strip(self):
        parts = self.parts[:]
        while parts and isinstance(parts[0], (str, unicode)):
            parts[0] = parts[0].lstrip()
            if parts[0]:
                break
            del parts[0]
        while parts and isinstance(parts[-1], (str, unicode)):
            parts[-1] = parts[-1].rstrip()
            if parts[-1]:
                break
            del parts[-1]
        return Text(parts)


class Table(object):
    """the table of words, looked up with symbolic digits"""

    def __init__(self, x, table):
        self.x, self.table = x, table

    def cases(self, key):
        out = []
        for k in sorted(self.table):
            if len(k) == len(key):
                out.append((self.x.And(*[self.x.Eq(a, int(c)) for a, c in zip(key.ds, k)]), self.table[k]))
        return out

    def __contains__(self, key):
        if not isinstance(key, Digits):
            return key in self.table
        cases = self.cases(key)
        return bool(cases) and self.x.fork(self.x.Or(*[c for c, w in cases]))

    def __getitem__(self, key):
        if key not in self:
            raise KeyError(key)
        if not isinstance(key, Digits):
            return self.table[key]
        return Text([Word(self.cases(key), key)])

    def get(self, key, default=None):
        return self[key] if key in self else default


def read(x, text):
    """the number that a text reads as, or None if it is no proper Dutch"""
    parts = []
    for p in (text.parts if isinstance(text, Text) else [text]):
        if isinstance(p, Word):
            # one word for the parser, with a symbolic value
            ws = [w for c, w in p.cases]
            v, known = 0, []
            for c, w in p.cases:
                v = x.ite(c, WORDS.get(w, 0), v)
                if w and w not in WORDS:
                    known.append(c)
            if known and x.fork(x.Or(*known)):
                return None
            zero = [c for c, w in p.cases if not w]
            if zero and x.fork(x.Or(*zero)):
                continue
            if x.fork(x.Eq(v, p.key.value())):
                v = p.key.value()       # says the same, and is simpler
            parts.append(v)
        else:
            rest = p
            while rest:
                for w in sorted(list(WORDS) + POWERS + ["honderd", "en", " "], key=len, reverse=True):
                    # 'een' goes before 'en' as it is longer
                    if rest.startswith(w):
                        parts.append(WORDS.get(w, w))
                        rest = rest[len(w):]
                        break
                else:
                    return None
    return parse(x, parts)


def small(x, parts):
    """consume a number below 100 -> value or None"""
    if not parts or isinstance(parts[0], (str, unicode)):
        return None
    v = parts.pop(0)
    if parts and parts[0] == "en":
        parts.pop(0)
        if not parts or isinstance(parts[0], (str, unicode)):
            return None
        w = parts.pop(0)
        if not x.fork(x.And(x.Le(1, v), x.Le(v, 9), x.Le(20, w))):
            return None
        return v + w
    return v


def below(x, parts, hundreds):
    """consume a number below 1000, or below 10000 in hundreds, as in 'vierenveertighonderdeen'"""
    v = small(x, parts)
    if parts and parts[0] == "honderd":
        parts.pop(0)
        if v is None:
            v = 1
        elif not x.fork(x.And(x.Le(2, v), x.Le(v, 99 if hundreds else 9))):
            return None
        if hundreds and x.fork(x.And(x.Le(10, v), x.Or(*[x.Eq(v, 10 * k) for k in range(1, 10)]))):
            return None                 # 2001 is no 'twintighonderdeen'
        v = v * 100
        rest = small(x, parts)
        if rest is not None:
            v = v + rest
    return v


def parse(x, parts):
    total, last = 0, len(POWERS) + 1
    hundreds = not [p for p in parts if p in POWERS]
    while parts:
        v = below(x, parts, hundreds)
        power, space = 0, bool(parts) and parts[0] == " "
        if space:
            parts.pop(0)
        if parts and isinstance(parts[0], str) and parts[0] in POWERS:
            power = POWERS.index(parts.pop(0)) + 1
            if v is None:
                # a mere 'duizend'
                if power > 1 or space:
                    return None
                v = 1
            elif power == 1 and x.fork(x.Eq(v, 1)):
                return None             # no 'eenduizend'
            if space != (power > 1):
                return None
            if parts and parts[0] == " ":
                parts.pop(0)
                if not parts:
                    return None
            elif parts:
                return None
        elif space or parts:
            return None
        if v is None or power >= last:
            return None
        last = power
        total = total + v * 1000 ** power
    return total


class Calls(rewrite.Calls):
    """'format % number' as a call, too"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Str):
            return self.call("_mod_", [node.left, node.right], node)
        return node


def inside(a, b):
    if isinstance(a, Digits) and isinstance(b, (str, unicode)):
        k = len(a)
        return any([a == b[i:i + k] for i in range(len(b) - k + 1)])
    return a in b


def joined(sep, items):
    if isinstance(sep, (str, unicode)):
        items = list(items)
        if [i for i in items if isinstance(i, Text)]:
            out = Text([])
            for k, i in enumerate(items):
                out = out + (sep if k else "") + i
            return out
        if [i for i in items if isinstance(i, Digits)] and not sep:
            out = items[0]
            for i in items[1:]:
                out = out + i
            return out
    return sep.join(items)


def instrumented():
    """the module, compiled from its source with these changes"""
    path = number.__file__.replace("$py.class", ".py").replace(".pyc", ".py")
    with open(path) as f:
        tree = Calls().visit(ast.parse(f.read(), path))
    m = imp.new_module("instrumented_number")
    m.__file__ = path
    m._symx_in = inside
    m._symx_join = joined
    m._mod_ = lambda a, b: a % b
    exec compile(tree, path, "exec") in m.__dict__
    return m


MODULE = []


def plain(a):
    if [i for i in (a if isinstance(a, tuple) else [a]) if isinstance(i, symx.Sym)]:
        raise TypeError("a number the stand-ins do not know the digits of")
    return a


def concretely(x, n, digits, options):
    """code the stand-ins are no match for: with every number in turn"""
    if len([d for d in digits if not isinstance(d, int)]) > 4:
        raise symx.Inconclusive("undecided: the code does something with digits that is not foreseen, too many numbers for a time limit")
    value = 0
    for d in digits:
        k = d
        if not isinstance(d, int):
            k = 0
            while k < 9 and not x.fork(x.Eq(d, k)):
                k += 1
        value = value * 10 + k
    return number.spell_out_number(value, **options)


def spell(x, n, digits, **options):
    if not x.symbolic:
        return number.spell_out_number(n, **options)
    if not MODULE:
        MODULE.append(instrumented())
    m = MODULE[0]

    tables = [(k, v) for k, v in vars(m).items() if isinstance(v, dict) and v and not k.startswith("__")]
    for k, v in tables:
        setattr(m, k, Table(x, v))

    def is_n(a):
        return a is n

    def formatted(form, a):
        it = a[0] if isinstance(a, tuple) and len(a) == 1 else a
        spec = re.match("%0?([0-9]*)[dis]$", form)
        if not (is_n(it) or isinstance(it, Digits)) or not spec:
            return form % plain(a)
        ds = Digits(x, digits) if is_n(it) else it
        return ds.zfill(int(spec.group(1) or 0)) if form.startswith("%0") or not spec.group(1) else form % a
    m._mod_ = formatted
    m.str = m.repr = m.unicode = lambda a: Digits(x, digits) if is_n(a) else a if isinstance(a, (Digits, Text)) else str(plain(a))
    m.int = m.long = lambda a, *b: a if is_n(a) else a.value() if isinstance(a, Digits) else int(plain(a), *b)
    try:
        return m.spell_out_number(n, **options)
    except (TypeError, AttributeError, ValueError, KeyError, IndexError, AssertionError):
        return concretely(x, n, digits, options)
    finally:
        for k, v in tables:
            setattr(m, k, v)
        for k in ("str", "repr", "unicode", "int", "long"):
            delattr(m, k)


def digits(x, n, free=None):
    """numbers of n digits; in those at 'free' only, if given, the others are zero"""
    ds = []
    for i in range(n):
        if free is None or i in free:
            ds.append(x.int("d%d" % i, 1 if i == 0 and n > 1 else 0, 9))
        else:
            ds.append(0)
    v = 0
    for d in ds:
        v = v * 10 + d
    options = {}
    hundreds = True
    if n == 4 and x.flag("option"):
        hundreds = options["prefer_hundreds"] = x.flag("prefer hundreds")
    text = spell(x, v, ds, **options)
    if text == "nul":
        x.prove(x.Eq(v, 0), "'nul' is zero")
    else:
        got = read(x, text)
        x.prove(got is not None, "proper Dutch")
        x.prove(x.Eq(got, v), "reads as the number itself")
        words = [p for p in text.parts if isinstance(p, str)] if isinstance(text, Text) else [text]
        x.prove(not [1 for p in words if "nul" in p], "'nul' for zero only")
        if n == 4:
            thousand = [p for p in words if "duizend" in p]
            x.prove(x.Eq(bool(thousand), x.Or(x.Eq(ds[1], 0), not hundreds)), "in hundreds, if wanted and possible")
    x.observe(v)


def jobs(tier):
    deep = tier == "thorough"
    js = dict([("digits-%d" % n, (digits, dict(n=n))) for n in range(1, 14 if deep else 11)])
    for n in range(11, 25 if deep else 23):
        first = (n - 1) % 3 + 1
        for g in range(first, n, 3):
            js["sparse-%d-%d" % (n, g)] = (digits, dict(n=n, free=range(first) + range(g, g + 3)))
    return js
