# -*- coding: utf-8 -*-
"""Jython side of a check.

  worker.py explore CHECK TIER SEED     reads job names on stdin
  worker.py replay  CHECK TIER FILE     FILE: [{job, inputs}]; result on stdout

The environment variable SYMX_SRC names the tree the code is imported from.
"""
import sys
import os
import time
import json
import traceback
import threading

PROTO = sys.stdout


class Null(object):
    """standard output of the code, which a check can catch (also where it was
    bound as a default argument)"""
    sink = None

    def write(self, s):
        if self.sink is not None:
            self.sink.write(s)

    def flush(self):
        pass


HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
sys.path.insert(0, os.path.join(os.environ["SYMX_SRC"], "lib"))
sys.dont_write_bytecode = True

import rewrite
import symx


def jsonable(v):
    if isinstance(v, symx.Fraction):
        return {"frac": [v.numerator, v.denominator]}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return sorted([[jsonable(a), jsonable(b)] for a, b in v.items()])
    if isinstance(v, (set, frozenset)):
        return sorted([jsonable(a) for a in v])
    if v is None or isinstance(v, (bool, int, long, float, str, unicode)):
        return v
    return "<%s>" % v.__class__.__name__


def say(obj):
    PROTO.write("@@" + json.dumps(obj) + "\n")
    PROTO.flush()


def load_check(name, tier):
    mod = __import__(name)
    jobs = mod.jobs(tier)
    return mod, jobs


def explore(name, tier, seed):
    symx.patch_builtins()
    rewrite.install()
    mod, jobs = load_check_guarded(name, tier)
    say({"ready": True})
    while True:
        line = sys.stdin.readline()
        if not line or not line.strip():
            return
        jobname, limit = json.loads(line)
        fn, kw = jobs[jobname]
        opts = getattr(fn, "opts", {})
        t0 = time.time()
        res = {"job": jobname, "status": "ok"}
        eng = symx.Engine(seed=seed, deadline=t0 + limit,
                          timeout_ms=opts.get("timeout_ms", 60000),
                          solver_cmd=(os.environ.get("SYMX_Z3", "z3-new"), "-in"))
        symx.ENGINE_LOG[0] = opts.get("log", False)
        done = watch(eng, jobname)
        try:
            try:
                if opts.get("numbers"):
                    symx.patch_numbers()
                cex = eng.explore(lambda x: fn(x, **kw))
            finally:
                symx.unpatch_numbers()
            if cex is not None:
                res["status"] = "cex"
                res["msg"] = cex.msg
                res["inputs"] = jsonable(cex.inputs)
                res["tb"] = getattr(cex, "tb", "")
        except symx.Inconclusive, inst:
            res["status"] = "inconclusive"
            res["msg"] = str(inst)
        except BaseException, inst:
            res["status"] = "error"
            res["msg"] = "%s: %s" % (inst.__class__.__name__, inst)
            res["tb"] = traceback.format_exc()
        res.update({"paths": eng.paths, "infeasible": eng.infeasible,
                    "decisions": eng.decisions, "nodes": eng.nodes,
                    "asserts": eng.asserts,
                    "assert_queries": eng.assert_queries,
                    "queries": eng.solver.queries,
                    "answers": eng.solver.stats,
                    "solver_time": eng.solver.time,
                    "wall": time.time() - t0,
                    "witness": eng.witness,
                    "samples": [[i, jsonable(o)] for i, o in eng.path_samples]})
        done.set()
        eng.solver.close()
        reset_table()
        say(res)


def watch(eng, jobname):
    """look out for a path on which the code loops without any decision"""
    done = threading.Event()

    def look():
        while not done.isSet():
            done.wait(5)
            if not hasattr(eng, "path_t0") or done.isSet():
                continue
            # a decision notices it itself, on the main thread
            if time.time() - eng.path_t0 > eng.stall + 30 and eng.stalled():
                cex = eng.stop_here()
                if cex is not None and not done.isSet():
                    say({"job": jobname, "status": "cex", "msg": cex.msg, "hang": True,
                         "inputs": jsonable(cex.inputs), "tb": ""})
                    os._exit(1)
                return

    t = threading.Thread(target=look)
    t.setDaemon(True)
    t.start()
    return done


def reset_table():
    symx._table.clear()
    # the constants TRUE and FALSE keep their identity
    for n in TF:
        symx._table[("const", "Bool", n.args)] = n
    symx.TRUE, symx.FALSE = TF


TF = (symx.TRUE, symx.FALSE)


def load_check_guarded(name, tier):
    try:
        return load_check(name, tier)
    except BaseException, inst:
        say({"loaderror": "%s: %s" % (inst.__class__.__name__, inst),
             "tb": traceback.format_exc()})
        sys.exit(3)


def replay(name, tier, fname):
    mod, jobs = load_check_guarded(name, tier)
    src = os.path.realpath(os.environ["SYMX_SRC"])
    funcs = set()

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            f = co.co_filename
            if f.startswith(src):
                funcs.add("%s:%s" % (f[len(src) + 1:], co.co_name))
    cases = json.load(open(fname))
    out = []
    for n, case in enumerate(cases):
        fn, kw = jobs[case["job"]]
        x = symx.Concrete(case["inputs"])
        r = {"result": "ok"}
        if case.get("trace"):
            sys.setprofile(prof)
        try:
            try:
                fn(x, **kw)
            finally:
                sys.setprofile(None)
        except symx.ConcreteFailure, inst:
            r = {"result": "fail", "msg": str(inst)}
        except symx.AssumptionFailed:
            r = {"result": "assumption"}
        except Exception, inst:
            r = {"result": "exception",
                 "msg": "unexpected %s: %s" % (inst.__class__.__name__, inst),
                 "tb": traceback.format_exc()}
        r["observed"] = jsonable(x.value(x.observed))
        out.append(r)
    say({"cases": out, "functions": sorted(funcs)})


if __name__ == "__main__":
    sys.stdout = Null()
    mode = sys.argv[1]
    if mode == "explore":
        explore(sys.argv[2], sys.argv[3], int(sys.argv[4]))
    else:
        replay(sys.argv[2], sys.argv[3], sys.argv[4])
