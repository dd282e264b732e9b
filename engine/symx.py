# -*- coding: utf-8 -*-
"""
symx - a small solver-based symbolic executor that runs inside Jython.

The code under test (Python 2, /repo/lib) is executed by the very interpreter
its users run it with.  Inputs are proxy objects carrying SMT terms.  Whenever
the code asks for the truth value of a condition over symbolic inputs, z3
decides which of the outcomes are feasible under the path condition; the
executor explores every feasible path by deterministic re-execution.  At the
end of a path the property is an assertion over the symbolic values, and z3
decides whether path-condition AND NOT property is satisfiable.

Nothing is sampled: `explore` returns only when the solver has shown that no
unexplored feasible path is left (or it raises Inconclusive).
"""

import sys
import os
import time
import random
from fractions import Fraction

import __builtin__

_isinstance = isinstance
_min = min
_max = max
_int = int
_float = float
_xrange = xrange
_range = range
_sum = sum
_abs = abs
_round = round


class PathAbort(BaseException):
    """path is infeasible (assumption does not hold); steers the engine"""


class EngineStop(BaseException):
    """a counterexample was found: leave the code under test"""


class Inconclusive(BaseException):
    """solver answered unknown / a limit was hit: never reported as success"""


# ---------------------------------------------------------------------------
# terms

class Node(object):
    __slots__ = ("op", "args", "sort", "nid", "txt", "size")

    def __init__(self, op, args, sort, nid):
        self.op = op
        self.args = args
        self.sort = sort
        self.nid = nid
        self.txt = None


_table = {}
_ids = [0]


def _mk(op, args, sort):
    if op == "const":
        key = (op, sort, args)
    elif op == "var":
        key = (op, sort, args)
    else:
        key = (op, sort) + tuple([a.nid for a in args])
    n = _table.get(key)
    if n is None:
        _ids[0] += 1
        n = Node(op, args, sort, _ids[0])
        _table[key] = n
    return n


def const(v, sort):
    return _mk("const", v, sort)


TRUE = const(True, "Bool")
FALSE = const(False, "Bool")


def _isconst(n):
    return n.op == "const"


def n_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "Bool")


def n_and(xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), "Bool")


def n_or(xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE or x in out:
            continue
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), "Bool")


def n_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        a, b = n_real(a), n_real(b)
    if a.sort == "Bool":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return n_not(c)
    return _mk("ite", (c, a, b), a.sort)


def n_real(a):
    if a.sort == "Real":
        return a
    if a.sort == "Bool":
        a = n_ite(a, const(1, "Int"), const(0, "Int"))
    if _isconst(a):
        return const(Fraction(a.args), "Real")
    return _mk("to_real", (a,), "Real")


def _coerce(a, b):
    if a.sort == "Bool":
        a = n_ite(a, const(1, "Int"), const(0, "Int"))
    if b.sort == "Bool":
        b = n_ite(b, const(1, "Int"), const(0, "Int"))
    if a.sort != b.sort:
        a, b = n_real(a), n_real(b)
    return a, b


def n_add(a, b):
    a, b = _coerce(a, b)
    if _isconst(a) and _isconst(b):
        return const(a.args + b.args, a.sort)
    if _isconst(a) and a.args == 0:
        return b
    if _isconst(b) and b.args == 0:
        return a
    return _mk("+", (a, b), a.sort)


def n_neg(a):
    if a.sort == "Bool":
        a = n_ite(a, const(1, "Int"), const(0, "Int"))
    if _isconst(a):
        return const(-a.args, a.sort)
    return _mk("neg", (a,), a.sort)


def n_sub(a, b):
    a, b = _coerce(a, b)
    if _isconst(a) and _isconst(b):
        return const(a.args - b.args, a.sort)
    if _isconst(b) and b.args == 0:
        return a
    if a is b:
        return const(0 if a.sort == "Int" else Fraction(0), a.sort)
    return _mk("-", (a, b), a.sort)


def n_mul(a, b):
    a, b = _coerce(a, b)
    if _isconst(a) and _isconst(b):
        return const(a.args * b.args, a.sort)
    for x, y in ((a, b), (b, a)):
        if _isconst(x):
            if x.args == 0:
                return x
            if x.args == 1:
                return y
    return _mk("*", (a, b), a.sort)


def n_rdiv(a, b):
    a, b = n_real(a), n_real(b)
    if _isconst(a) and _isconst(b):
        return const(a.args / b.args, "Real")
    if _isconst(b) and b.args == 1:
        return a
    return _mk("/", (a, b), "Real")


def n_fdiv(a, b):
    """floor division; b is known to be non-zero"""
    a, b = _coerce(a, b)
    if a.sort == "Real":
        q = n_rdiv(a, b)
        if _isconst(q):
            return const(Fraction(q.args.numerator // q.args.denominator), "Real")
        return n_real(_mk("to_int", (q,), "Int"))
    if _isconst(a) and _isconst(b):
        return const(a.args // b.args, "Int")
    if _isconst(b):
        if b.args == 1:
            return a
        if b.args > 0:
            return _mk("div", (a, b), "Int")
        return _mk("div", (n_neg(a), n_neg(b)), "Int")
    pos = n_lt(const(0, "Int"), b)
    return n_ite(pos, _mk("div", (a, b), "Int"),
                 _mk("div", (n_neg(a), n_neg(b)), "Int"))


def n_mod(a, b):
    a, b = _coerce(a, b)
    return n_sub(a, n_mul(b, n_fdiv(a, b)))


def n_eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "Bool" and b.sort == "Bool":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return n_not(b)
        if b is FALSE:
            return n_not(a)
        return _mk("=", (a, b), "Bool")
    a, b = _coerce(a, b)
    if a is b:
        return TRUE
    if _isconst(a) and _isconst(b):
        return TRUE if a.args == b.args else FALSE
    if b.nid < a.nid:
        a, b = b, a
    return _mk("=", (a, b), "Bool")


def n_lt(a, b):
    a, b = _coerce(a, b)
    if a is b:
        return FALSE
    if _isconst(a) and _isconst(b):
        return TRUE if a.args < b.args else FALSE
    return _mk("<", (a, b), "Bool")


def n_le(a, b):
    return n_not(n_lt(b, a))


def num_txt(v, sort):
    if sort == "Bool":
        return "true" if v else "false"
    if sort == "Int":
        return str(v) if v >= 0 else "(- %d)" % -v
    f = Fraction(v)
    n, d = f.numerator, f.denominator
    s = "%d.0" % _abs(n) if d == 1 else "(/ %d.0 %d.0)" % (_abs(n), d)
    return s if n >= 0 else "(- %s)" % s


# ---------------------------------------------------------------------------
# solver process

class Solver(object):

    def __init__(self, cmd, timeout_ms, seed=0, log=None):
        from java.lang import ProcessBuilder
        from java.io import BufferedReader, InputStreamReader
        from java.io import BufferedWriter, OutputStreamWriter
        pb = ProcessBuilder(cmd)
        pb.redirectErrorStream(True)
        self.proc = pb.start()
        self.out = BufferedWriter(OutputStreamWriter(self.proc.getOutputStream(), "UTF-8"))
        self.inp = BufferedReader(InputStreamReader(self.proc.getInputStream(), "UTF-8"))
        self.log = log
        self.levels = []
        self.queries = 0
        self.time = 0.0
        self.busy = False
        self.named = 0
        self.declared = {}
        self.stats = {"sat": 0, "unsat": 0}
        self.send("(set-option :print-success false)")
        self.send("(set-option :produce-models true)")
        self.send("(set-option :global-declarations true)")
        self.send("(set-option :timeout %d)" % timeout_ms)
        self.send("(set-option :random-seed %d)" % seed)

    def send(self, s):
        if self.log is not None:
            self.log.append(s)
        self.out.write(s)
        self.out.write("\n")

    def close(self):
        try:
            self.proc.destroy()
        except Exception:
            pass

    def text(self, n):
        t = n.txt
        if t is not None:
            return t
        op = n.op
        if op == "const":
            t = num_txt(n.args, n.sort)
        elif op == "var":
            t = "".join([c if c.isalnum() else "_" for c in n.args])
            t = "%s!%d" % (t, n.nid)
            self.send("(declare-const %s %s)" % (t, n.sort))
        else:
            args = [self.text(a) for a in n.args]
            if op == "neg":
                op = "-"
            t = "(%s %s)" % (op, " ".join(args))
            if len(t) > 48:
                self.named += 1
                nm = "n!%d" % self.named
                self.send("(define-fun %s () %s %s)" % (nm, n.sort, t))
                t = nm
        n.txt = t
        return t

    def sync(self, path):
        """make the assertion stack equal to the conditions of path"""
        lv = self.levels
        i = 0
        m = _min(len(lv), len(path))
        while i < m and lv[i] is path[i]:
            i += 1
        if len(lv) > i:
            self.send("(pop %d)" % (len(lv) - i))
            del lv[i:]
        for c in path[i:]:
            t = self.text(c)
            self.send("(push 1)")
            self.send("(assert %s)" % t)
            lv.append(c)

    def check(self, path, extra, variables):
        """-> ("sat", model) | ("unsat", None) | ("unknown", None)"""
        t0 = time.time()
        self.busy = True
        self.sync(path)
        if extra is not None:
            t = self.text(extra)
            self.send("(push 1)")
            self.send("(assert %s)" % t)
        self.send("(check-sat)")
        self.out.flush()
        ans = self.inp.readLine()
        self.queries += 1
        model = None
        if ans == "sat":
            self.stats["sat"] += 1
            model = {}
            if variables:
                self.send("(get-value (%s))" %
                          " ".join([self.text(v) for v in variables]))
                self.out.flush()
                model = self._read_model(variables)
        elif ans == "unsat":
            self.stats["unsat"] += 1
        if extra is not None:
            self.send("(pop 1)")
        self.time += time.time() - t0
        self.busy = False
        if ans not in ("sat", "unsat", "unknown", "timeout"):
            raise Inconclusive("solver said %r" % ans)
        return ans, model

    def _read_model(self, variables):
        toks = []
        depth = 0
        while True:
            line = self.inp.readLine()
            if line is None:
                raise Inconclusive("solver died")
            if line.startswith("(error"):
                raise Inconclusive(line)
            part = line.replace("(", " ( ").replace(")", " ) ").split()
            toks.extend(part)
            depth += part.count("(") - part.count(")")
            if depth <= 0:
                break
        pos = [0]

        def parse():
            t = toks[pos[0]]
            pos[0] += 1
            if t == "(":
                l = []
                while toks[pos[0]] != ")":
                    l.append(parse())
                pos[0] += 1
                return l
            return t
        model = {}
        for v, (name, val) in zip(variables, parse()):
            model[v.args] = _value(val, v.sort)
        return model


def _value(e, sort):
    if _isinstance(e, list):
        if e[0] == "-" and len(e) == 2:
            x = _value(e[1], sort)
            return None if x is None else -x
        if e[0] == "/" and len(e) == 3:
            a, b = _value(e[1], "Real"), _value(e[2], "Real")
            if a is None or b is None:
                return None
            return a / b
        return None
    if e == "true":
        return True
    if e == "false":
        return False
    if sort == "Int":
        return _int(e)
    try:
        return Fraction(e)
    except ValueError:
        return None


class NoValue(Exception):
    pass


def evaluate(n, model, memo):
    v = memo.get(n.nid)
    if v is not None:
        return v
    op = n.op
    a = n.args
    if op == "const":
        v = a
    elif op == "var":
        v = model.get(a)
        if v is None:
            raise NoValue(a)
    elif op == "ite":
        v = evaluate(a[1] if evaluate(a[0], model, memo) else a[2], model, memo)
    elif op == "not":
        v = not evaluate(a[0], model, memo)
    elif op == "and":
        v = True
        for x in a:
            if not evaluate(x, model, memo):
                v = False
                break
    elif op == "or":
        v = False
        for x in a:
            if evaluate(x, model, memo):
                v = True
                break
    elif op == "neg":
        v = -evaluate(a[0], model, memo)
    elif op == "to_real":
        v = Fraction(evaluate(a[0], model, memo))
    elif op == "to_int":
        x = evaluate(a[0], model, memo)
        v = x.numerator // x.denominator
    else:
        x = evaluate(a[0], model, memo)
        y = evaluate(a[1], model, memo)
        if op == "+":
            v = x + y
        elif op == "-":
            v = x - y
        elif op == "*":
            v = x * y
        elif op == "=":
            v = x == y
        elif op == "<":
            v = x < y
        elif op == "div":
            v = x // y
        elif op == "/":
            if y == 0:
                raise NoValue("/0")
            v = Fraction(x) / Fraction(y)
        else:
            raise AssertionError(op)
    memo[n.nid] = v
    return v


# ---------------------------------------------------------------------------
# what equalities a path has settled

class Equalities(object):
    """union-find over the terms a path has compared; answers equality
    questions that follow from the decisions taken, so that the solver is only
    asked about those that do not"""

    def __init__(self):
        self.parent = {}
        self.consts = {}
        self.neq = []
        self.cache = None

    def find(self, n):
        nid = n.nid
        p = self.parent
        if nid not in p:
            if n.op == "const":
                p[nid] = nid
                self.consts[nid] = n.args
            return nid
        while p[nid] != nid:
            p[nid] = p[p[nid]]
            nid = p[nid]
        return nid

    def learn(self, c, holds):
        while c.op == "not":
            c, holds = c.args[0], not holds
        if c.op == "and" and holds:
            for a in c.args:
                self.learn(a, True)
        elif c.op == "or" and not holds:
            for a in c.args:
                self.learn(a, False)
        elif c.op == "=":
            a, b = c.args
            if holds:
                ra, rb = self.find(a), self.find(b)
                if ra != rb:
                    if rb in self.consts:
                        ra, rb = rb, ra
                    self.parent[ra] = ra
                    self.parent[rb] = ra
                    self.cache = None
            else:
                self.neq.append((a, b))
                self.cache = None

    def ask(self, c):
        """value of an equation, or None"""
        a, b = c.args
        ra, rb = self.find(a), self.find(b)
        if ra == rb:
            return True
        if ra in self.consts and rb in self.consts:
            return self.consts[ra] == self.consts[rb]
        if self.cache is None:
            self.cache = set()
            for p, q in self.neq:
                rp, rq = self.find(p), self.find(q)
                self.cache.add((rp, rq))
                self.cache.add((rq, rp))
        if (ra, rb) in self.cache:
            return False
        return None


# ---------------------------------------------------------------------------
# engine

class Counterexample(object):

    def __init__(self, msg, inputs, kind):
        self.msg = msg
        self.inputs = inputs      # list of [name, kind, value]
        self.kind = kind


class Engine(object):
    """explores one harness exhaustively"""

    symbolic = True

    def __init__(self, seed=0, deadline=None, max_paths=None, timeout_ms=20000,
                 solver_cmd=("z3-new", "-in"), log=None):
        self.solver = Solver(list(solver_cmd), timeout_ms, seed, log)
        self.deadline = deadline
        self.max_paths = max_paths
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.nodes = 0
        self.asserts = 0
        self.assert_queries = 0
        self.witness = {}
        self.path_samples = []
        self.sample_every = 1
        self.cex = None

    # -- one path
    def _start(self, prefix, model):
        self.path_t0 = time.time()
        self.path_s0 = self.solver.time
        self.prefix = prefix
        self.pos = 0
        self.trail = []       # (cond node as taken, info)
        self.path = []        # cond nodes asserted
        self.model = model
        self.memo = {}
        self.vars = []
        self.varset = {}
        self.inputs = []
        self.observed = []
        self.fresh = 0
        self.reached = False
        self.aux = {}
        self.roots = {}       # square root variable -> its axiom
        self.rooted = set()   # those whose axiom is on the path
        self.shared = {}
        self.equal = Equalities()
        self.labels = None
        self.label_nodes = {}

    def canonical_tokens(self):
        """strings made of tokens are canonical labels of their equality
        classes instead of concrete values: for code that turns tokens into
        text only to compare it or to show it"""
        self.labels = []

    def label(self, n):
        for i, m in enumerate(self.labels):
            if self.branch(n_eq(n, m)):
                return "t~%03d" % i
        self.labels.append(n)
        t = "t~%03d" % (len(self.labels) - 1)
        self.label_nodes[t] = n
        return t

    def unlabel(self, s):
        """the token behind a canonical label"""
        if _isinstance(s, (str, unicode)) and s in self.label_nodes:
            return Tok(self.label_nodes[s])
        return s

    def simplify(self, n, memo):
        """rewrite n using the decisions of the path"""
        v = memo.get(n.nid)
        if v is not None:
            return v
        op = n.op
        if op in ("const", "var"):
            v = n
            if op == "var" and n.sort == "Bool":
                d = self.decided.get(n.nid)
                if d is not None:
                    v = TRUE if d else FALSE
            memo[n.nid] = v
            return v
        if n.sort == "Bool":
            d = self.decided.get(n.nid)
            if d is None and op == "=" and n.args[0].sort != "Bool":
                d = self.equal.ask(n)
            if d is not None:
                v = TRUE if d else FALSE
                memo[n.nid] = v
                return v
        if op == "ite":
            c = self.simplify(n.args[0], memo)
            if c is TRUE:
                v = self.simplify(n.args[1], memo)
            elif c is FALSE:
                v = self.simplify(n.args[2], memo)
            else:
                v = n_ite(c, self.simplify(n.args[1], memo), self.simplify(n.args[2], memo))
        else:
            a = [self.simplify(x, memo) for x in n.args]
            if op == "and":
                v = n_and(a)
            elif op == "or":
                v = n_or(a)
            elif op == "not":
                v = n_not(a[0])
            elif op == "=":
                v = n_eq(a[0], a[1])
            elif op == "<":
                v = n_lt(a[0], a[1])
            elif op == "+":
                v = n_add(a[0], a[1])
            elif op == "-":
                v = n_sub(a[0], a[1])
            elif op == "*":
                v = n_mul(a[0], a[1])
            elif op == "neg":
                v = n_neg(a[0])
            elif op == "to_real":
                v = n_real(a[0])
            else:
                v = n
        memo[n.nid] = v
        return v

    def _eval(self, n):
        if self.model is None:
            return None
        try:
            return evaluate(n, self.model, self.memo)
        except NoValue:
            return None

    def _setmodel(self, m):
        self.model = m
        self.memo = {}

    def _check(self, extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time limit of the harness reached")
        if extra is not None and self.roots:
            axioms = self.roots_in(extra)
            if axioms:
                extra = n_and(axioms + [extra])
        return self.solver.check(self.path, extra, self.vars)

    # A square root is a variable r with the axiom 0 <= r and r*r = n, where n
    # is not negative on the path, so that r exists: the axiom is left out of
    # queries about other things, without changing their answer.
    def roots_in(self, n):
        found, seen, todo = [], set(), [n]
        while todo:
            m = todo.pop()
            if m.nid in seen:
                continue
            seen.add(m.nid)
            if m.op == "var":
                if m.nid in self.roots and m.nid not in self.rooted:
                    found.append(self.roots[m.nid])
                    todo.append(self.roots[m.nid])
            elif m.op != "const":
                todo.extend(m.args)
        return found

    def add_roots(self, c):
        if self.roots:
            for a in self.roots_in(c):
                self.path.append(a)
                self.rooted.update([r for r in self.roots if self.roots[r] is a])
                self.model = None
                self.memo = {}

    def _newvar(self, name, sort):
        n = _mk("var", name, sort)
        if name not in self.varset:
            self.varset[name] = n
            self.vars.append(n)
            if self.model is not None and name not in self.model:
                # any value may be used for a variable that is not
                # constrained yet
                self.model[name] = {"Int": 0, "Real": Fraction(0),
                                    "Bool": False}[sort]
        return n

    def assume_node(self, c):
        """add c to the path condition"""
        if c is TRUE:
            return
        if c is FALSE:
            raise PathAbort()
        self.equal.learn(c, True)
        self.add_roots(c)
        v = self._eval(c)
        if v:
            self.path.append(c)
            return
        if self.pos < len(self.prefix):
            # the remaining prefix is known to be feasible
            self.path.append(c)
            self._setmodel(None)
            return
        ans, m = self._check(c)
        if ans == "unsat":
            raise PathAbort()
        if ans != "sat":
            raise Inconclusive("assumption undecided")
        self.path.append(c)
        self._setmodel(m)

    # -- paths that do not end
    stall = 60

    def stalled(self):
        """has the code run for long on this path, apart from the solver?"""
        return (time.time() - self.path_t0 - (self.solver.time - self.path_s0) > self.stall and
                not self.solver.busy)

    def stop_here(self):
        """the inputs of a path that does not seem to end, as a candidate: the
        run on the real code tells whether it does"""
        if self.model is None:
            ans, m = self.solver.check(self.path, None, self.vars)
            if ans != "sat":
                return None
            self._setmodel(m)
        return Counterexample("the code does not terminate", self._concrete_inputs(), "hang")

    def branch(self, c, info=None):
        """decide condition c on this path; the other outcome is queued when
        the solver finds it feasible"""
        if self.stalled():
            self.cex = self.stop_here()
            if self.cex is not None:
                raise EngineStop()
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        # already decided on this path?
        d = self.decided.get(c.nid)
        if d is None and c.op == "=":
            d = self.equal.ask(c)
        if d is not None and info is None:
            return d
        if self.pos < len(self.prefix):
            node, taken, _info = self.prefix[self.pos]
            if node is not c:
                raise Inconclusive("harness is not deterministic")
            self.pos += 1
            if d is not None:
                self.trail.append((c, d, info))
                return d
            if self.pos == len(self.prefix) and self.prefix_model is not None:
                self._take(c, taken, info)
                m = dict(self.prefix_model)
                for v in self.vars:
                    if v.args not in m:
                        m[v.args] = {"Int": 0, "Real": Fraction(0),
                                     "Bool": False}[v.sort]
                self._setmodel(m)
                return taken
            self._take(c, taken, info)
            return taken
        if d is not None:
            self.trail.append((c, d, info))
            return d
        self.decisions += 1
        v = self._eval(c)
        if v is None:
            ans, m = self._check(c)
            if ans == "sat":
                v = True
                first = m
            elif ans == "unsat":
                v = False
                first = None
            else:
                raise Inconclusive("branch undecided")
            other = n_not(c) if v else None
            if other is None:
                # c infeasible, so not c holds on this path
                self._take(c, False, info)
                return False
            ans, m = self._check(other)
            if ans == "sat":
                self.queue.append((self.trail + [(c, False, info)], m))
            elif ans != "unsat":
                raise Inconclusive("branch undecided")
            self._setmodel(first)
            self._take(c, True, info)
            return True
        other = n_not(c) if v else c
        ans, m = self._check(other)
        if ans == "sat":
            self.queue.append((self.trail + [(c, not v, info)], m))
        elif ans != "unsat":
            raise Inconclusive("branch undecided")
        self._take(c, v, info)
        return v

    def _take(self, c, taken, info):
        self.trail.append((c, taken, info))
        self.add_roots(c)
        self.path.append(c if taken else n_not(c))
        self.decided[c.nid] = taken
        self.equal.learn(c, taken)

    def concretise(self, n):
        """fork over all feasible values of n"""
        if n.op == "const":
            return n.args
        v = self.known.get(n.nid)
        if v is not None:
            return v
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][2]
            else:
                v = self._eval(n)
                if v is None:
                    ans, m = self._check(None)
                    if ans != "sat":
                        raise Inconclusive("cannot concretise")
                    self._setmodel(m)
                    v = self._eval(n)
                    if v is None:
                        raise Inconclusive("cannot concretise")
            if self.branch(n_eq(n, const(v, n.sort)), v):
                self.known[n.nid] = v
                return v

    # -- harness interface (shared with Concrete below)
    def _input(self, name, kind, value):
        self.inputs.append([name, kind, value])

    def int(self, name, lo=None, hi=None):
        n = self._newvar(name, "Int")
        self._input(name, "int", n)
        if lo is not None:
            self.assume_node(n_le(const(lo, "Int"), n))
        if hi is not None:
            self.assume_node(n_le(n, const(hi, "Int")))
        return SymInt(n)

    def real(self, name, lo=None, hi=None):
        n = self._newvar(name, "Real")
        self._input(name, "real", n)
        if lo is not None:
            self.assume_node(n_le(n_real(const(lo, "Int")), n))
        if hi is not None:
            self.assume_node(n_le(n, n_real(const(hi, "Int"))))
        return SymReal(n)

    def bool(self, name):
        n = self._newvar(name, "Bool")
        self._input(name, "bool", n)
        return SymBool(n)

    def token(self, name, k):
        """an opaque symbol out of an alphabet of k"""
        n = self._newvar(name, "Int")
        self._input(name, "token", n)
        self.assume_node(n_le(const(0, "Int"), n))
        self.assume_node(n_lt(n, const(k, "Int")))
        return Tok(n)

    def symbol(self, i):
        """the i-th symbol of the alphabet (containers do not find symbolic
        tokens among plain strings, but among these)"""
        return Tok(const(i, "Int"))

    def choice(self, name, lo, hi):
        """a concrete integer; every value of lo..hi is explored"""
        n = self._newvar(name, "Int")
        self._input(name, "int", n)
        self.assume_node(n_le(const(lo, "Int"), n))
        self.assume_node(n_le(n, const(hi, "Int")))
        return self.concretise(n)

    def pick(self, name, seq):
        return seq[self.choice(name, 0, len(seq) - 1)]

    def flag(self, name):
        n = self._newvar(name, "Bool")
        self._input(name, "bool", n)
        return self.branch(n)

    def flag_eq(self, a, b):
        """decide a == b by forking"""
        return self.branch(as_node(self.Eq(a, b)))

    def fork(self, cond):
        """decide a condition by forking"""
        return self.branch(as_node(cond))

    def assume(self, cond):
        self.assume_node(as_node(cond))

    def prove(self, cond, msg="property"):
        self.reached = True
        self.asserts += 1
        n = as_node(cond)
        self.witness[msg] = self.witness.get(msg, 0) + 1
        if n is TRUE:
            return
        if n is FALSE:
            self.fail(msg)
        n = self.simplify(n, {})
        if n is TRUE:
            return
        if n is FALSE:
            self.fail(msg)
        neg = n_not(n)
        self.assert_queries += 1
        ans, m = self._check(neg)
        if ans == "unsat":
            return
        if ans != "sat":
            raise Inconclusive("assertion undecided: " + msg)
        self._setmodel(m)
        self._cex(msg, "assertion")

    def fail(self, msg):
        self.reached = True
        self.witness[msg] = self.witness.get(msg, 0) + 1
        if self.model is None or True:
            # make sure the path is feasible and we hold a full model
            ans, m = self._check(None)
            if ans == "unsat":
                raise PathAbort()
            if ans != "sat":
                raise Inconclusive("path undecided")
            self._setmodel(m)
        self._cex(msg, "assertion")

    def _cex(self, msg, kind):
        self.cex = Counterexample(msg, self._concrete_inputs(), kind)
        raise EngineStop()

    def _concrete_inputs(self):
        out = []
        for name, kind, n in self.inputs:
            v = self._eval(n)
            if v is None:
                v = 0
            if _isinstance(v, Fraction):
                v = [v.numerator, v.denominator]
            out.append([name, kind, v])
        return out

    def observe(self, *values):
        """values of the real code to be compared with a concrete run"""
        self.observed.extend(values)

    def value(self, v):
        """evaluate an observed structure under the current model"""
        if _isinstance(v, Sym):
            x = self._eval(v.n)
            if _isinstance(v, Tok):
                return tok_name(x)
            if _isinstance(v, SymEnum):
                return _strings[x]
            return x
        if _isinstance(v, (str, unicode)) and v in self.label_nodes:
            return tok_name(self._eval(self.label_nodes[v]))
        if _isinstance(v, (list, tuple)):
            return [self.value(x) for x in v]
        if _isinstance(v, dict):
            return sorted([[self.value(a), self.value(b)] for a, b in v.items()])
        if _isinstance(v, (set, frozenset)):
            return sorted([self.value(a) for a in v])
        return v

    # -- helpers for oracles: no forking
    def ite(self, c, a, b):
        c = as_node(c)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return wrap(n_ite(c, as_node(a), as_node(b)))

    def And(self, *xs):
        return wrap(n_and([as_node(x) for x in xs]))

    def Or(self, *xs):
        return wrap(n_or([as_node(x) for x in xs]))

    def Not(self, x):
        return wrap(n_not(as_node(x)))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Eq(self, a, b):
        if _isinstance(a, Tok) and _isinstance(b, (str, unicode)):
            a, b = b, a
        if not _isinstance(a, Sym) and not _isinstance(b, Sym):
            return a == b
        if _isinstance(a, (Tok, SymEnum)) or _isinstance(b, (Tok, SymEnum)):
            if not _isinstance(a, Sym):
                a, b = b, a
            return a == b
        return wrap(n_eq(as_node(a), as_node(b)))

    def Close(self, a, b):
        return self.Eq(a, b)

    def Le(self, a, b):
        return wrap(n_le(as_node(a), as_node(b)))

    def Lt(self, a, b):
        return wrap(n_lt(as_node(a), as_node(b)))

    def Max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = wrap(n_ite(n_lt(as_node(r), as_node(x)), as_node(x), as_node(r)))
        return r

    def Min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = wrap(n_ite(n_lt(as_node(x), as_node(r)), as_node(x), as_node(r)))
        return r

    def Sum(self, xs):
        r = const(0, "Int")
        for x in xs:
            r = n_add(r, as_node(x))
        return wrap(r)

    # -- main loop
    def explore(self, fn, on_path=None):
        global ENGINE
        ENGINE = self
        self.queue = [([], None)]
        # initial model: none known
        t0 = time.time()
        late = t0 + (self.deadline - t0) * 0.4 if self.deadline is not None else None
        rnd = random.Random(1)
        while self.queue:
            if late is not None and time.time() > late:
                # it may not get finished: spread over the tree what is left
                i = rnd.randrange(len(self.queue))
                self.queue[i], self.queue[-1] = self.queue[-1], self.queue[i]
            prefix, model = self.queue.pop()
            self.prefix_model = model
            self._start(prefix, dict(model) if model is not None else None)
            self.decided = {}
            self.known = {}
            if self.max_paths is not None and self.paths >= self.max_paths:
                raise Inconclusive("path limit reached")
            if self.deadline is not None and time.time() > self.deadline:
                raise Inconclusive("time limit of the harness reached")
            try:
                if not prefix:
                    self._setmodel({})
                fn(self)
            except PathAbort:
                self.infeasible += 1
                continue
            except EngineStop:
                return self.cex
            except Exception, inst:
                import traceback
                tb = traceback.format_exc()
                ans, m = self._check(None)
                if ans == "unsat":
                    self.infeasible += 1
                    continue
                if ans != "sat":
                    raise Inconclusive("exception on an undecided path\n" + tb)
                self._setmodel(m)
                self.cex = Counterexample(
                    "unexpected %s: %s" % (inst.__class__.__name__, inst),
                    self._concrete_inputs(), "exception")
                self.cex.tb = tb
                return self.cex
            self.paths += 1
            self.nodes += len(self.trail)
            self._sample()
        return None

    def _sample(self):
        """keep a bounded, evenly thinned set of path models, to be replayed
        on the real code without the proxies"""
        if self.paths % self.sample_every:
            return
        if self.model is None:
            ans, m = self._check(None)
            if ans != "sat":
                return
            self._setmodel(m)
        self.path_samples.append((self._concrete_inputs(),
                                  self.value(self.observed)))
        if len(self.path_samples) > 24:
            self.path_samples = self.path_samples[::2]
            self.sample_every *= 2


ENGINE = None


# ---------------------------------------------------------------------------
# proxies

def as_node(v):
    if _isinstance(v, Sym):
        return v.n
    if _isinstance(v, bool):
        return TRUE if v else FALSE
    if _isinstance(v, (_int, long)):
        return const(_int(v), "Int")
    if _isinstance(v, _float_type):
        return const(float_const(v), "Real")
    if _isinstance(v, Fraction):
        return const(v, "Real")
    raise TypeError("no term for %r" % (v,))


_float_type = _float


def float_const(v):
    if v != v or v in (_INF, -_INF):
        raise TypeError("no term for %r" % v)
    return Fraction(repr(v)) if False else Fraction.from_float(v)


_INF = _float("inf")


def wrap(n):
    if n.op == "const":
        return n.args
    if n.sort == "Bool":
        return SymBool(n)
    if n.sort == "Int":
        return SymInt(n)
    return SymReal(n)


def _num(v):
    """node of a number, or None"""
    if _isinstance(v, Sym):
        if _isinstance(v, (Tok, SymEnum)):
            return None
        return v.n
    if _isinstance(v, (bool, _int, long)):
        return const(_int(v), "Int")
    if _isinstance(v, _float_type):
        if v != v or v in (_INF, -_INF):
            return None
        return const(Fraction.from_float(v), "Real")
    if _isinstance(v, Fraction):
        return const(v, "Real")
    return None


class Sym(object):
    pass


class SymBase(Sym):

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<sym %d>" % self.n.nid

    # comparison
    def __eq__(self, o):
        b = _num(o)
        if b is None:
            return False
        return wrap(n_eq(self.n, b))

    def __ne__(self, o):
        b = _num(o)
        if b is None:
            return True
        return wrap(n_not(n_eq(self.n, b)))

    def _inf(self, o):
        return _isinstance(o, _float_type) and (o == _INF or o == -_INF)

    def __lt__(self, o):
        b = _num(o)
        if b is None:
            if self._inf(o):
                return o > 0
            return NotImplemented
        return wrap(n_lt(self.n, b))

    def __gt__(self, o):
        b = _num(o)
        if b is None:
            if self._inf(o):
                return o < 0
            return NotImplemented
        return wrap(n_lt(b, self.n))

    def __le__(self, o):
        b = _num(o)
        if b is None:
            if self._inf(o):
                return o > 0
            return NotImplemented
        return wrap(n_le(self.n, b))

    def __ge__(self, o):
        b = _num(o)
        if b is None:
            if self._inf(o):
                return o < 0
            return NotImplemented
        return wrap(n_le(b, self.n))

    # arithmetic
    def __add__(self, o):
        b = _num(o)
        return NotImplemented if b is None else wrap(n_add(self.n, b))

    def __radd__(self, o):
        b = _num(o)
        return NotImplemented if b is None else wrap(n_add(b, self.n))

    def __sub__(self, o):
        b = _num(o)
        return NotImplemented if b is None else wrap(n_sub(self.n, b))

    def __rsub__(self, o):
        b = _num(o)
        return NotImplemented if b is None else wrap(n_sub(b, self.n))

    def __mul__(self, o):
        b = _num(o)
        if b is None:
            if _isinstance(o, (str, unicode, list, tuple)):
                return o * self.__index__()
            return NotImplemented
        return wrap(n_mul(self.n, b))

    __rmul__ = __mul__

    def __neg__(self):
        return wrap(n_neg(self.n))

    def __pos__(self):
        return self

    def __abs__(self):
        n = self.n
        return wrap(n_ite(n_lt(n, const(0, "Int")), n_neg(n), n))

    def _zero(self, d):
        if ENGINE.branch(n_eq(d, const(0, "Int"))):
            raise ZeroDivisionError("integer division or modulo by zero")

    def _tdiv(self, a, b):
        self._zero(b)
        return wrap(n_rdiv(a, b))

    def _fdiv(self, a, b):
        self._zero(b)
        return wrap(n_fdiv(a, b))

    def _cdiv(self, a, b):
        if "Real" in (a.sort, b.sort):
            return self._tdiv(a, b)
        return self._fdiv(a, b)

    def __div__(self, o):
        b = _num(o)
        return NotImplemented if b is None else self._cdiv(self.n, b)

    def __rdiv__(self, o):
        b = _num(o)
        return NotImplemented if b is None else self._cdiv(b, self.n)

    def __truediv__(self, o):
        b = _num(o)
        return NotImplemented if b is None else self._tdiv(self.n, b)

    def __rtruediv__(self, o):
        b = _num(o)
        return NotImplemented if b is None else self._tdiv(b, self.n)

    def __floordiv__(self, o):
        b = _num(o)
        return NotImplemented if b is None else self._fdiv(self.n, b)

    def __rfloordiv__(self, o):
        b = _num(o)
        return NotImplemented if b is None else self._fdiv(b, self.n)

    def __mod__(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        self._zero(b)
        return wrap(n_mod(self.n, b))

    def __rmod__(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        self._zero(self.n)
        return wrap(n_mod(b, self.n))

    def __divmod__(self, o):
        return self.__floordiv__(o), self.__mod__(o)

    def __rdivmod__(self, o):
        return self.__rfloordiv__(o), self.__rmod__(o)

    def __pow__(self, o, m=None):
        if _isinstance(o, Sym):
            o = ENGINE.concretise(o.n)
        if o == 0.5:
            return sym_sqrt(self)
        if o != _int(o):
            return NotImplemented
        r = 1
        for i in _range(_int(_abs(o))):
            r = self * r
        if o < 0:
            return 1.0 / r
        return r

    def __nonzero__(self):
        n = self.n
        if n.sort == "Bool":
            return ENGINE.branch(n)
        return not ENGINE.branch(n_eq(n, const(0, "Int")))

    def __int__(self):
        v = ENGINE.concretise(self.n)
        return _int(v)

    def __float__(self):
        v = ENGINE.concretise(self.n)
        return _float(v)

    def __str__(self):
        return str(self._conc())

    def __unicode__(self):
        return unicode(self._conc())

    def __format__(self, spec):
        return format(self._conc(), spec)

    def __hash__(self):
        return hash(self._conc())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymInt(SymBase):

    def _conc(self):
        return _int(ENGINE.concretise(self.n))

    def __index__(self):
        return _int(ENGINE.concretise(self.n))

    def __long__(self):
        return long(ENGINE.concretise(self.n))


class SymReal(SymBase):

    def _conc(self):
        return _float(ENGINE.concretise(self.n))


class SymBool(SymBase):

    def _conc(self):
        return ENGINE.branch(self.n)

    def __index__(self):
        return _int(ENGINE.branch(self.n))

    __int__ = __index__

    def __and__(self, o):
        return wrap(n_and([self.n, as_node(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return wrap(n_or([self.n, as_node(o)]))

    __ror__ = __or__

    def __xor__(self, o):
        return wrap(n_not(n_eq(self.n, as_node(o))))

    __rxor__ = __xor__

    def __eq__(self, o):
        if _isinstance(o, (bool, SymBool)):
            return wrap(n_eq(self.n, as_node(o)))
        return SymBase.__eq__(self, o)

    def __ne__(self, o):
        if _isinstance(o, (bool, SymBool)):
            return wrap(n_not(n_eq(self.n, as_node(o))))
        return SymBase.__ne__(self, o)

    def __hash__(self):
        return hash(self._conc())


TOK_HASH = hash("symx-token")


def tok_name(i):
    return "t%03d" % i


class Tok(Sym):
    """an opaque, hashable, totally ordered symbol.  All tokens share one hash
    value, so that containers compare them with __eq__, which forks."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<tok %d>" % self.n.nid

    def _other(self, o):
        if _isinstance(o, Tok):
            return o.n
        if _isinstance(o, (str, unicode)):
            if len(o) == 4 and o[0] == "t" and o[1:].isdigit():
                return const(_int(o[1:]), "Int")
            return ENGINE.label_nodes.get(o)
        return None

    def __eq__(self, o):
        n = self._other(o)
        if n is None:
            return False
        return wrap(n_eq(self.n, n))

    def __ne__(self, o):
        n = self._other(o)
        if n is None:
            return True
        return wrap(n_not(n_eq(self.n, n)))

    def __lt__(self, o):
        n = self._other(o)
        if n is None:
            return NotImplemented
        return wrap(n_lt(self.n, n))

    def __gt__(self, o):
        n = self._other(o)
        if n is None:
            return NotImplemented
        return wrap(n_lt(n, self.n))

    def __le__(self, o):
        n = self._other(o)
        if n is None:
            return NotImplemented
        return wrap(n_le(self.n, n))

    def __ge__(self, o):
        n = self._other(o)
        if n is None:
            return NotImplemented
        return wrap(n_le(n, self.n))

    def __hash__(self):
        return TOK_HASH

    def __nonzero__(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def concrete(self):
        if ENGINE.labels is not None:
            return ENGINE.label(self.n)
        return tok_name(ENGINE.concretise(self.n))

    def __str__(self):
        return self.concrete()

    def __unicode__(self):
        return unicode(self.concrete())

    def __len__(self):
        return 4

    # there is no white space in a symbol
    def strip(self, *chars):
        return getattr(self.concrete(), "strip")(*chars) if chars else self

    def split(self, *sep):
        return getattr(self.concrete(), "split")(*sep) if sep else [self]

    def encode(self, *args):
        return self

    decode = encode

    # anything else a string can do is done on the concrete symbol
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    def __add__(self, o):
        return self.concrete() + o if _isinstance(o, Tok) or o else self

    def __radd__(self, o):
        return o + self.concrete() if o else self

    def __getitem__(self, i):
        return self.concrete()[i]

    def __iter__(self):
        return iter(self.concrete())

    def __contains__(self, x):
        return x in self.concrete()


_strings = []
_codes = {}


def str_code(s):
    c = _codes.get(s)
    if c is None:
        c = _codes[s] = len(_strings)
        _strings.append(s)
    return c


class SymEnum(Sym):
    """one of a few concrete strings, chosen by an integer term"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        if _isinstance(o, SymEnum):
            return wrap(n_eq(self.n, o.n))
        if _isinstance(o, (str, unicode)):
            return wrap(n_eq(self.n, const(str_code(o), "Int")))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrap(n_not(r.n)) if _isinstance(r, Sym) else not r

    def concrete(self):
        return _strings[ENGINE.concretise(self.n)]

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return repr(self.concrete())

    def __cmp__(self, o):
        return cmp(self.concrete(), o.concrete() if _isinstance(o, SymEnum) else o)

    def __nonzero__(self):
        return bool(self.concrete())

    def __len__(self):
        return len(self.concrete())

    def __iter__(self):
        return iter(self.concrete())

    def __getitem__(self, i):
        return self.concrete()[i]

    def __contains__(self, i):
        return i in self.concrete()

    def __add__(self, o):
        return self.concrete() + o

    def __radd__(self, o):
        return o + self.concrete()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _is_str(v):
    return _isinstance(v, (str, SymEnum))


def _comp_lt_eq(a, b):
    """(a < b, a == b) as nodes for two components, or None"""
    x, y = _num(a), _num(b)
    if x is not None and y is not None:
        return n_lt(x, y), n_eq(x, y)
    if _is_str(a) and _is_str(b):
        if not _isinstance(a, SymEnum) and not _isinstance(b, SymEnum):
            return (TRUE if a < b else FALSE), (TRUE if a == b else FALSE)
        na = a.n if _isinstance(a, SymEnum) else const(str_code(a), "Int")
        nb = b.n if _isinstance(b, SymEnum) else const(str_code(b), "Int")
        ws = sorted(set(_strings))

        def is_(n, w):
            return n_eq(n, const(str_code(w), "Int"))
        lt = n_or([n_and([is_(na, u), is_(nb, v)])
                   for u in ws for v in ws if u < v])
        return lt, n_eq(na, nb)
    return None


def _tuple_lt(a, b):
    """a < b for two tuples of numbers and strings, or None"""
    if not (type(a) is tuple and type(b) is tuple and len(a) == len(b)):
        return None
    parts = []
    for x, y in zip(a, b):
        p = _comp_lt_eq(x, y)
        if p is None:
            return None
        parts.append(p)
    r = FALSE
    for lt, eq in reversed(parts):
        r = n_or([lt, n_and([eq, r])])
    return r


def _tuple_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    out = []
    for x, y in zip(a, b):
        p, q = _num(x), _num(y)
        if p is not None:
            out.append(wrap(n_ite(c, p, q)))
        else:
            na = x.n if _isinstance(x, SymEnum) else const(str_code(x), "Int")
            nb = y.n if _isinstance(y, SymEnum) else const(str_code(y), "Int")
            n = n_ite(c, na, nb)
            out.append(_strings[n.args] if n.op == "const" else SymEnum(n))
    return tuple(out)


def _tuple_best(xs, want_max):
    """merged maximum (minimum) of tuples, or None when not applicable"""
    if not xs or not _all(type(x) is tuple for x in xs):
        return None
    if not _any(_isinstance(c, Sym) for x in xs for c in x):
        return None
    r = xs[0]
    for x in xs[1:]:
        c = _tuple_lt(r, x) if want_max else _tuple_lt(x, r)
        if c is None:
            return None
        r = _tuple_ite(c, x, r)
    return r


_all = all
_any = any


# ---------------------------------------------------------------------------
# builtins which would leave the proxies: symbolic versions

def _has_sym(xs):
    for x in xs:
        if _isinstance(x, SymBase):
            return True
    return False


def sym_min(*args, **kw):
    if kw:
        return _min(*args, **kw)
    xs = list(args[0]) if len(args) == 1 else args
    if not _has_sym(xs):
        r = _tuple_best(xs, False)
        return _min(xs) if r is None else r
    r = xs[0]
    for x in xs[1:]:
        a, b = _num(r), _num(x)
        if a is None or b is None:
            if x < r:
                r = x
        else:
            r = wrap(n_ite(n_lt(b, a), b, a))
    return r


def sym_max(*args, **kw):
    if kw:
        return _max(*args, **kw)
    xs = list(args[0]) if len(args) == 1 else args
    if not _has_sym(xs):
        r = _tuple_best(xs, True)
        return _max(xs) if r is None else r
    r = xs[0]
    for x in xs[1:]:
        a, b = _num(r), _num(x)
        if a is None or b is None:
            if x > r:
                r = x
        else:
            r = wrap(n_ite(n_lt(a, b), b, a))
    return r


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (_float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, _float)


class sym_float(_float):
    __metaclass__ = _FloatMeta

    def __new__(cls, x=0.0):
        if _isinstance(x, SymBase):
            return wrap_real(x.n)
        return _float(x)


def wrap_real(n):
    n = n_real(n)
    if n.op == "const":
        return _float(n.args)
    return SymReal(n)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (_int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, _int)


class sym_int(_int):
    __metaclass__ = _IntMeta

    def __new__(cls, x=0, *base):
        if _isinstance(x, SymInt):
            return x
        if _isinstance(x, SymBool):
            return SymInt(n_ite(x.n, const(1, "Int"), const(0, "Int")))
        if _isinstance(x, SymReal):
            n = x.n
            neg = n_lt(n, const(Fraction(0), "Real"))
            up = n_neg(_mk("to_int", (n_neg(n),), "Int"))
            return wrap(n_ite(neg, up, _mk("to_int", (n,), "Int")))
        return _int(x, *base)


def sym_round(x, nd=0):
    if _isinstance(x, SymBase):
        return x          # formatting only; stated as an assumption
    return _round(x, nd)


def sym_range(*args):
    return _range(*[a.__index__() if _isinstance(a, Sym) else a for a in args])


def sym_xrange(*args):
    return _xrange(*[a.__index__() if _isinstance(a, Sym) else a for a in args])


def non_negative(n):
    """is n obviously not negative (a sum of squares, say)?"""
    if n.op == "const":
        return n.args >= 0
    if n.op == "+":
        return non_negative(n.args[0]) and non_negative(n.args[1])
    if n.op == "*":
        a, b = n.args
        return a is b or (non_negative(a) and non_negative(b))
    if n.op == "/":
        return non_negative(n.args[0]) and _isconst(n.args[1]) and n.args[1].args > 0
    if n.op == "ite":
        return non_negative(n.args[1]) and non_negative(n.args[2])
    return False


def sym_sqrt(x):
    """the non-negative real root, as a fresh variable with its defining axiom"""
    if not _isinstance(x, SymBase):
        return _real_sqrt(x)
    n = n_real(x.n)
    key = ("sqrt", n.nid)
    r = ENGINE.aux.get(key)
    if r is None:
        if not non_negative(n) and ENGINE.branch(n_lt(n, const(Fraction(0), "Real"))):
            raise ValueError("math domain error")
        r = _mk("var", "sqrt!%d" % n.nid, "Real")
        ENGINE.aux[key] = r
        ENGINE.roots[r.nid] = n_and([n_le(const(Fraction(0), "Real"), r),
                                     n_eq(n_mul(r, r), n)])
    return SymReal(r)


def sym_log(x, base=None):
    """log is uninterpreted: a fresh real per argument, increasing, log 1 = 0.
    The same axioms hold for every base > 1."""
    syms = _isinstance(x, SymBase)
    if not syms and not ENGINE_LOG[0]:
        return _real_log(x) if base is None else _real_log(x, base)
    n = n_real(as_node(x))
    zero = const(Fraction(0), "Real")
    one = const(Fraction(1), "Real")
    if ENGINE.branch(n_le(n, zero)):
        raise ValueError("math domain error")
    logs = ENGINE.aux.setdefault(("log", base), [(one, zero)])
    for m, l in logs:
        if m is n:
            return wrap(l)
    r = ENGINE._newvar("log!%d!%s" % (n.nid, "e" if base is None else base), "Real")
    ENGINE.model = None
    ENGINE.memo = {}
    for m, l in logs:
        ENGINE.assume_node(n_eq(n_lt(n, m), n_lt(r, l)))
        ENGINE.assume_node(n_eq(n_lt(m, n), n_lt(l, r)))
    logs.append((n, r))
    return SymReal(r)


ENGINE_LOG = [False]

import math
_real_sqrt = math.sqrt
_real_log = math.log
_real_pow = math.pow
_real_floor = math.floor
_real_ceil = math.ceil


def sym_pow(a, b):
    if _isinstance(a, SymBase) or _isinstance(b, SymBase):
        return sym_float(a) ** b
    return _real_pow(a, b)


def sym_fabs(a):
    return sym_float(_abs(a))


def sym_floor(a):
    if _isinstance(a, SymBase):
        return wrap_real(_mk("to_int", (n_real(a.n),), "Int"))
    return _real_floor(a)


def sym_ceil(a):
    if _isinstance(a, SymBase):
        return wrap_real(n_neg(_mk("to_int", (n_neg(n_real(a.n)),), "Int")))
    return _real_ceil(a)


def patch_numbers():
    """only for harnesses which put symbolic numbers through float()/int()"""
    __builtin__.float = sym_float
    __builtin__.int = sym_int
    __builtin__.round = sym_round


def unpatch_numbers():
    __builtin__.float = _float
    __builtin__.int = _int
    __builtin__.round = _round


def patch_builtins():
    __builtin__.min = sym_min
    __builtin__.max = sym_max
    __builtin__.range = sym_range
    __builtin__.xrange = sym_xrange
    import imp
    mod = imp.new_module("math")
    for name in dir(math):
        if not name.startswith("_") and name not in (
                "class", "classDictInit", "equals", "getClass", "hashCode",
                "notify", "notifyAll", "toString", "wait"):
            setattr(mod, name, getattr(math, name))
    mod.sqrt = sym_sqrt
    mod.log = sym_log
    mod.pow = sym_pow
    mod.fabs = sym_fabs
    mod.floor = sym_floor
    mod.ceil = sym_ceil
    sys.modules["math"] = mod


# ---------------------------------------------------------------------------
# concrete twin of the engine: the same harness on plain values

class ReplayMismatch(Exception):
    pass


class AssumptionFailed(BaseException):
    pass


class ConcreteFailure(BaseException):
    pass


class Concrete(object):
    def canonical_tokens(self):
        pass

    def unlabel(self, s):
        return s

    """runs a harness on the concrete inputs of a solver model, with nothing
    patched: the replay of a counterexample, or of a sampled path"""

    symbolic = False

    def __init__(self, inputs):
        self.table = dict([(name, (kind, v)) for name, kind, v in inputs])
        self.observed = []
        self.failure = None
        self.shared = {}

    def _get(self, name, default=0):
        if name in self.table:
            return self.table[name][1]
        return default

    def int(self, name, lo=None, hi=None):
        return self._get(name)

    def real(self, name, lo=None, hi=None):
        v = self._get(name)
        if _isinstance(v, list):
            return v[0] / _float(v[1])
        return _float(v)

    def bool(self, name):
        return bool(self._get(name))

    flag = bool

    def symbol(self, i):
        return tok_name(i)

    def token(self, name, k):
        return tok_name(self._get(name))

    def choice(self, name, lo, hi):
        return self._get(name, lo)

    def pick(self, name, seq):
        return seq[self._get(name)]

    def flag_eq(self, a, b):
        return a == b

    def fork(self, cond):
        return bool(cond)

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def prove(self, cond, msg="property"):
        if not cond:
            raise ConcreteFailure(msg)

    def fail(self, msg):
        raise ConcreteFailure(msg)

    def observe(self, *values):
        self.observed.extend(values)

    def value(self, v):
        if _isinstance(v, (list, tuple)):
            return [self.value(x) for x in v]
        if _isinstance(v, dict):
            return sorted([[self.value(a), self.value(b)] for a, b in v.items()])
        if _isinstance(v, (set, frozenset)):
            return sorted([self.value(a) for a in v])
        return v

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *xs):
        for x in xs:
            if not x:
                return False
        return True

    def Or(self, *xs):
        for x in xs:
            if x:
                return True
        return False

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Eq(self, a, b):
        return a == b

    def Close(self, a, b):
        return abs(a - b) <= 1e-9 * _max([1, abs(a), abs(b)])

    def Le(self, a, b):
        return a <= b + 1e-9 * _max([1, abs(a), abs(b)])

    def Lt(self, a, b):
        return a < b

    def Max(self, *xs):
        return _max(xs)

    def Min(self, *xs):
        return _min(xs)

    def Sum(self, xs):
        return _sum(list(xs))
