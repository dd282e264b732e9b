# -*- coding: utf-8 -*-
"""C33  the cache"""
import sys
from helpers import *
from standin import standin


from daeso.thirdparty.GenericCache import GenericCache, CacheNode
from daeso.thirdparty.GenericCache.decorators import cached


class Clock(object):
    now = 0

    def __call__(self):
        return Clock.now


module = sys.modules["daeso.thirdparty.GenericCache.GenericCache"]

META = {
    "first": ["history-2", "expiry-2"],
    "bounds": {"quick": "every history of up to 2 operations (insert, as a node, as an item, fetch, with default, generate, remove, delete, clear, make smaller) with caches of any size up to 3 or without limit and of up to 4 operations (insert, fetch, generate, remove) with caches of sizes 1 and 2, on 3 keys; every history of 3 insertions, fetches and collections at arbitrary real times with an arbitrary real living time; decorated functions called 3 times; two threads with one operation each (of 12) on caches of up to 2 values, the one of the other thread at any point at which no lock is held",
               "thorough": "in addition histories of 5 operations with caches of size 2, and of 4 operations at arbitrary times"},
    "outside": "more threads or operations at once, operations without lock that both stop half-way; longer histories; keys that differ but have the same name",
    "assumptions": ["the clock does not run backwards"],
}
KEYS = [1, "a", "b"]


class Model(object):
    """keys in order of use, and their values"""

    def __init__(self, size):
        self.size = size
        self.items = []         # (key, value, time)

    def get(self, key):
        for k, v, t in self.items:
            if k == str(key):
                return v, t
        return None

    def use(self, key):
        hit = [i for i in self.items if i[0] == str(key)]
        self.items = [i for i in self.items if i[0] != str(key)] + hit

    def put(self, key, value, t=None):
        self.remove(key)
        if self.size:
            while len(self.items) >= self.size:
                self.items.pop(0)
        self.items.append((str(key), value, t))

    def remove(self, key):
        self.items = [i for i in self.items if i[0] != str(key)]


def agree(x, c, m):
    x.prove(len(c) == len(m.items) == c.size(), "the number of values")
    x.prove(sorted(map(str, c.keys())) == sorted([i[0] for i in m.items]), "the keys present")
    for k in KEYS:
        x.prove((k in c) == (m.get(k) is not None) == c.has_key(k), "which keys are present")


def history(x, n, ops, sizes):
    size = x.pick("size", sizes)
    fails = x.flag("fails by default") if n < 3 else n == 3
    with Time(0):
        c = GenericCache(maxsize=size, default_fail=fails) if size or fails else GenericCache()
        m = Model(size)
        used = 0    # keys are alike: new ones come in a fixed order
        for i in range(n):
            op = x.pick("op%d" % i, ops)
            key = x.pick("key%d" % i, KEYS[:used + 1]) if op not in ("clear", "shrink") else None
            if key is not None and key == KEYS[min(used, 2)]:
                used += 1
            there = m.get(key)
            if op == "insert":
                c.insert(key, i)
                m.put(key, i)
            elif op == "set":
                c[key] = i
                m.put(key, i)
            elif op == "node":
                c.insert(CacheNode(key, i))
                m.put(key, i)
            elif op == "fetch":
                if there:
                    x.prove(c.fetch(key) == there[0], "the value inserted last")
                elif fails:
                    x.prove(raises(lambda: c.fetch(key), KeyError), "a missing key is an error if so requested")
                else:
                    x.prove(c.fetch(key) is None, "nothing for a missing key")
                m.use(key)
            elif op == "get":
                x.prove(c.fetch(key, False, "no") == (there[0] if there else "no"), "the value inserted last or the one for missing keys")
                if not there:
                    x.prove(raises(lambda: c.fetch(key, True), KeyError), "a missing key is an error if so requested")
                m.use(key)
            elif op == "generate":
                calls = []
                got = c.fetch_with_generator(key, lambda a: calls.append(a) or i, 7)
                x.prove(got == (there[0] if there else i), "the value present, or else the one generated")
                x.prove(calls == ([] if there else [7]), "values are generated only when missing")
                if there:
                    m.use(key)
                else:
                    m.put(key, i)
            elif op == "remove":
                c.remove(key)
                m.remove(key)
            elif op == "del":
                del c[key]
                m.remove(key)
            elif op == "clear":
                c.clear()
                m.items = []
            elif op == "shrink":
                m.size = 1
                m.items = m.items[-1:]
                c.reconfigure(maxsize=1)
            agree(x, c, m)
        count = 0
        # which one goes next is that used least recently
        while m.items and m.size:
            new = "new%d" % count
            count += 1
            c.insert(new, 0)
            old = m.items
            m.put(new, 0)
            for k, v, t in old:
                x.prove((k in c) == (m.get(k) is not None), "the value used least recently makes room first")
            if m.items[0][0].startswith("new"):
                break
        x.observe(sorted(map(str, c.keys())))


class Time(standin):
    """whatever way the cache looks at the clock, it is ours"""

    def __init__(self, now):
        Clock.now = now
        standin.__init__(self, ["time"], time=Clock())


def expiry(x, n):
    life = x.real("living time", 0.001, 10)
    now = 0
    m = Model(None)
    with Time(now):
        c = GenericCache(expiry=life)
        for i in range(n):
            step = x.real("step%d" % i, 0, 20)
            Clock.now = now = now + step
            op = x.pick("op%d" % i, ["insert", "fetch", "collect", "generate"])
            if op == "collect":
                c.collect()
                m.items = [j for j in m.items if not x.fork(x.Lt(j[2] + life, now))]
                agree(x, c, m)
                continue
            key = x.pick("key%d" % i, KEYS[:2])
            hit = m.get(key)
            fresh = hit is not None and not x.fork(x.Lt(hit[1] + life, now))
            if op == "insert":
                c[key] = i
                m.put(key, i, now)
            elif op == "fetch":
                got = c.fetch(key, onmissing="no")
                x.prove(got == (hit[0] if fresh else "no"), "a value lives as long as it should and no longer")
                if not fresh:
                    m.remove(key)
            else:
                got = c.fetch_with_generator(key, lambda: i)
                x.prove(got == (hit[0] if fresh else i), "a value is generated again when its time is over")
                if not fresh:
                    m.put(key, i, now)
        x.observe(None)


def decorated(x):
    size = x.pick("size", [None, 1, 2])
    fails = x.flag("fails by default")
    with Time(0):
        c = GenericCache(maxsize=size, default_fail=fails)
        calls = []

        def f(a, b=0):
            calls.append((a, b))
            return a * 10 + b

        def g(a, b=0):
            calls.append(("g", a, b))
            return -a
        cf, cg = cached(c)(f), cached(c)(g)
        m = Model(size)
        for i in range(3):
            which = x.pick("function%d" % i, ["f", "g"])
            a = x.choice("a%d" % i, 0, 1)
            kw = {"b": 1} if x.flag("b%d" % i) else {}
            key = "%s-%d-%s" % (which, a, kw)
            del calls[:]
            got = (cf if which == "f" else cg)(a, **kw)
            x.prove(got == (a * 10 + kw.get("b", 0) if which == "f" else -a), "the value of the function")
            x.prove(len(calls) == (0 if m.get(key) else 1), "a function is called only for arguments it was not called with, or that had to go")
            if m.get(key):
                m.use(key)
            else:
                m.put(key, 0)
        x.observe(len(c))


class Lock(object):
    """a lock of one thread; the other thread is run by Watched"""
    made = []

    def __init__(self, *args):
        self.depth = 0
        Lock.made.append(self)

    def acquire(self, *args):
        # a point at which the other thread may come first
        Watched.turn(self)
        self.depth += 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError("a lock is released that is not held")
        self.depth -= 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class Watched(GenericCache):
    """whenever its attributes are accessed while no lock is held, the other thread may come in between"""
    other = None

    @staticmethod
    def turn(lock=None):
        if Watched.other is not None and not [l for l in Lock.made if l.depth]:
            f = Watched.other
            if f[0].flag("other thread at %d" % f[2]):
                Watched.other = None
                f[1]()
            else:
                f[2] += 1

    def __getattribute__(self, name):
        if name in Watched.fields:
            Watched.turn()
        return GenericCache.__getattribute__(self, name)

    fields = ()


def run(c, op, key, value):
    """what an operation does, as a value"""
    try:
        if op == "insert":
            return c.insert(key, value)
        elif op == "fetch":
            return c.fetch(key, onmissing="no")
        elif op == "fail":
            return c.fetch(key, True)
        elif op == "generate":
            calls = []
            return c.fetch_with_generator(key, lambda: calls.append(1) or value), calls
        elif op == "broken":
            return c.fetch_with_generator(key, lambda: 1 // 0)
        elif op == "remove":
            return c.remove(key)
        elif op == "clear":
            return c.clear()
        elif op == "collect":
            return c.collect()
        elif op == "shrink":
            return c.reconfigure(maxsize=1)
        elif op == "size":
            return len(c)
        elif op == "keys":
            return sorted(c.keys())
        elif op == "has":
            return key in c
    except (KeyError, ZeroDivisionError), e:
        return e.__class__.__name__


def rest(c, room):
    """the keys that are left, and either their values or the order in which they make room"""
    keys = sorted(c.keys())
    if not room:
        return keys, [c.fetch(k) for k in keys], len(c)
    order = []
    for i in range(room):
        c.insert("new%d" % i, 0)
        order.append(sorted(c.keys()))
    return keys, order, len(c)


def threads(x, ops, others):
    """two threads: an operation of one comes at any point of an operation of
    the other at which no lock is held; the effect is that of one of the two orders"""
    size = x.pick("size", [None, 1, 2])
    room = 2 if size == 2 and x.flag("who makes room") else 0
    start = x.choice("values before", 0, 2)
    a = x.pick("operation", ops), x.pick("key", ["k0", "k1"])
    b = x.pick("other operation", others), x.pick("other key", ["k0", "k1"])

    def fresh(cls):
        c = cls(maxsize=size)
        for i in range(start):
            c.insert("k%d" % i, "old%d" % i)
        return c
    with Time(0):
        want = []
        for first in (a, b):
            c = fresh(GenericCache)
            r = {}
            for o in ((a, b) if first is a else (b, a)):
                r[o is a] = run(c, o[0], o[1], "by a" if o is a else "by b")
            want.append((r[True], r[False], rest(c, room)))
        del Lock.made[:]
        with standin(["threading"], RLock=Lock, Lock=Lock):
            c = fresh(Watched)
            Watched.fields = set(vars(c)) - set([k for k, v in vars(c).items() if isinstance(v, Lock)])
            done = []
            try:
                Watched.other = [x, lambda: done.append(run(c, b[0], b[1], "by b")), 0]
                got = run(c, a[0], a[1], "by a")
                if Watched.other is not None:
                    Watched.other = None
                    done.append(run(c, b[0], b[1], "by b"))
            finally:
                Watched.other = None
                Watched.fields = ()
            x.prove(not [l for l in Lock.made if l.depth], "no lock is kept when an operation is over")
            x.observe(got, done)
            x.prove((got, done[0], rest(c, room)) in want, "operations of two threads have the effect of one of their orders")


def jobs(tier):
    ops = ["insert", "fetch", "remove", "generate"]
    out = {"decorated": (decorated, {})}
    for n in range(1, 6 if tier == "thorough" else 5):
        if n < 3:
            out["history-%d" % n] = (history, dict(n=n, ops=ops + ["set", "node", "get", "del", "clear", "shrink"], sizes=[2, 1, 3, None]))
        else:
            out["history-%d" % n] = (history, dict(n=n, ops=ops, sizes=[2, 1] if n < 5 else [2]))
    every = ["insert", "fetch", "fail", "generate", "broken", "remove", "clear", "shrink", "size", "keys", "has", "collect"]
    for op in every:
        out["threads-" + op] = (threads, dict(ops=[op], others=every))
    for n in range(1, 5 if tier == "thorough" else 4):
        out["expiry-%d" % n] = (expiry, dict(n=n))
    return out
