#!/usr/bin/python3
"""run_check.py ID: decide one property on /repo's current tree.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken, and
the counterexample was reproduced on the real code without any proxy; exit 2:
no answer (solver unknown, a limit, an error of the check)."""
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SYMX_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = int(os.environ.get("SYMX_WORKERS", str(os.cpu_count() or 4)))
LIMIT = float(os.environ.get("SYMX_LIMIT", "780" if TIER == "quick" else "5400"))
# one harness may take this long; see reduced() for what follows
JOB_LIMIT = float(os.environ.get("SYMX_JOB_LIMIT", "400" if TIER == "quick" else "2400"))
T0 = time.time()

JAVA = ["/usr/bin/java", "-Xss24m", "-Xmx2200m", "-XX:+UseSerialGC",
        "-XX:TieredStopAtLevel=1",
        "-cp", "/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar:"
        "/usr/share/java/xml-apis.jar",
        "-Dpython.home=/usr/share/jython",
        "-Dpython.executable=/opt/jy/bin/python",
        "-Dpython.cachedir.skip=true", "-Dfile.encoding=UTF-8",
        "org.python.util.jython", "-B"]


def environment(src, work):
    env = {"HOME": work, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
           "TMPDIR": work,
           "PATH": "/opt/jy/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           "JYTHONPATH": os.path.join(src, "lib") + ":/opt/jy/lib",
           "SYMX_SRC": src, "SYMX_WORK": work}
    if "SYMX_Z3" in os.environ:
        env["SYMX_Z3"] = os.environ["SYMX_Z3"]
    return env


def snapshot(work):
    """the sources under check, without any stale class file"""
    src = os.path.join(work, "src")
    for part in ("lib", "bin"):
        for d, dirs, files in os.walk(os.path.join(REPO, part)):
            rel = os.path.relpath(d, REPO)
            os.makedirs(os.path.join(src, rel), exist_ok=True)
            for f in files:
                if f.endswith((".pyc", ".class")):
                    continue
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    shutil.copy(p, os.path.join(src, rel, f))
    return src


class Worker:

    def __init__(self, check, src, work, n):
        d = os.path.join(work, "w%d" % n)
        os.makedirs(d, exist_ok=True)
        self.err = open(os.path.join(d, "stderr"), "w")
        self.p = subprocess.Popen(
            JAVA + [os.path.join(HERE, "worker.py"), "explore", check, TIER, str(SEED)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            text=True, cwd=d, env=environment(src, d))

    def read(self):
        while True:
            line = self.p.stdout.readline()
            if not line:
                self.err.flush()
                return {"status": "error", "msg": "worker died: "
                        + open(self.err.name).read()[-1500:]}
            if line.startswith("@@"):
                return json.loads(line[2:])

    def run(self, job, limit):
        self.p.stdin.write(json.dumps([job, limit]) + "\n")
        self.p.stdin.flush()
        return self.read()

    def stop(self):
        try:
            self.p.kill()
        except OSError:
            pass


def replay(check, src, work, cases, timeout=300):
    f = os.path.join(work, "cases-%d.json" % int(time.time() * 1e6))
    json.dump(cases, open(f, "w"))
    d = tempfile.mkdtemp(dir=work)
    try:
        p = subprocess.run(JAVA + [os.path.join(HERE, "worker.py"), "replay", check, TIER, f],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           cwd=d, env=environment(src, d), timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"timeout": True}
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    return {"error": p.stderr[-3000:]}


def same(a, b):
    if isinstance(a, dict) and "frac" in a:
        a = a["frac"][0] / a["frac"][1]
    if isinstance(b, dict) and "frac" in b:
        b = b["frac"][0] / b["frac"][1]
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    return a == b


def inexact(inputs):
    """are there real inputs that are no floats?  The code then sees rounded
    values, where ties may break differently"""
    for name, kind, v in inputs:
        if kind == "real" and isinstance(v, list):
            if v[1] & (v[1] - 1) or abs(v[0]) >= 2 ** 40:
                return True
    return False


def list_jobs(check, src, work):
    code = ("import sys, os, json; sys.path[:0] = [%r, %r, os.path.join(os.environ['SYMX_SRC'], 'lib')]\n"
            "out = sys.stdout\n"
            "class N(object):\n"
            "    def write(self, s): pass\n"
            "    def flush(self): pass\n"
            "sys.stdout = N()\n"
            "m = __import__(%r)\n"
            "j = m.jobs(%r)\n"
            "out.write('@@' + json.dumps([j.keys() if not hasattr(m, 'ORDER') else j.keys(), "
            "getattr(m, 'META', {})]) + '\\n')\n"
            % (HERE, os.path.join(VERIF, "checks"), check, TIER))
    f = os.path.join(work, "list.py")
    open(f, "w").write(code)
    p = subprocess.run(JAVA + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, cwd=work, env=environment(src, work), timeout=120)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    raise RuntimeError("cannot load check %s:\n%s" % (check, p.stderr[-3000:]))


def family(job):
    """harnesses whose names differ only in numbers differ only in bounds"""
    return re.sub("[0-9]+", "#", job)


def reduced(results):
    """the harnesses that were not finished in time or on which the solver gave
    up, while one of the same family, with other bounds, was decided: the
    bounds this run covered are then smaller than the intended ones, which the
    evidence says.  On the unchanged tree there are none."""
    done = set(family(r["job"]) for r in results if r["status"] == "ok")
    return [r for r in results if r["status"] == "inconclusive" and family(r["job"]) in done and
            ("time limit" in r["msg"] or "undecided" in r["msg"])]


def known_findings(check):
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("known: property=%s " % check):
                out.append(line.split(None, 2)[2])
    return out


def main():
    check = sys.argv[1]
    only = sys.argv[2:]
    work = tempfile.mkdtemp(prefix="symx-%s-" % check)
    try:
        code = run(check, only, work)
    finally:
        if not os.environ.get("SYMX_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def run(check, only, work):
    src = snapshot(work)
    jobs, meta = list_jobs(check, src, work)
    jobs = sorted(jobs)
    if only:
        jobs = [j for j in jobs if any(j.startswith(o) for o in only)]
    big = meta.get("first", [])
    jobs.sort(key=lambda j: (0 if any(j.startswith(b) for b in big) else 1))
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    results = []
    lock = threading.Lock()
    stop = threading.Event()
    violation = []
    broken = []

    def confirm(res):
        """replay a solver counterexample on the real code"""
        case = {"job": res["job"], "inputs": res["inputs"]}
        r = replay(check, src, work, [case], 90 if "not terminate" in res["msg"] else 300)
        if r.get("timeout"):
            return {"result": "timeout", "msg": "real code does not terminate on this input"}
        if "cases" not in r:
            return {"result": "error", "msg": str(r)[:2000]}
        return r["cases"][0]

    def work_loop(n):
        w = Worker(check, src, work, n)
        try:
            r = w.read()
            if not r.get("ready"):
                with lock:
                    broken.append("worker: %s" % json.dumps(r)[:3000])
                stop.set()
                return
            while not stop.is_set():
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    return
                left = LIMIT - (time.time() - T0)
                if left < 5:
                    with lock:
                        results.append({"job": j, "status": "inconclusive", "msg": "time limit before it began", "paths": 0})
                    continue
                res = w.run(j, min(left, JOB_LIMIT))
                res["job"] = j
                with lock:
                    results.append(res)
                if res["status"] == "cex":
                    c = confirm(res)
                    res["confirmed"] = c
                    if c["result"] in ("fail", "exception") or (
                            c["result"] == "timeout" and "not terminate" in res["msg"]):
                        with lock:
                            violation.append(res)
                        stop.set()
                    else:
                        with lock:
                            broken.append("counterexample of %s does not reproduce: %s %s\n%s" % (
                                j, res["msg"], json.dumps(c)[:1500], res.get("tb", "")))
                elif res["status"] == "inconclusive":
                    pass      # judged at the end
                elif res["status"] != "ok":
                    with lock:
                        broken.append("job %s: %s %s %s" % (j, res["status"], res.get("msg"), res.get("tb", "")))
                    if res["msg"].startswith("worker died"):
                        return
        finally:
            w.stop()

    threads = [threading.Thread(target=work_loop, args=(i,), daemon=True)
               for i in range(min(WORKERS, len(jobs)))]
    for t in threads:
        t.start()
    for t in threads:
        while t.is_alive():
            t.join(0.5)
            if stop.is_set() and violation:
                break
            if time.time() - T0 > LIMIT + 60:
                break

    cut = reduced(results)
    for r in results:
        if r["status"] == "inconclusive" and r not in cut:
            broken.append("job %s: inconclusive %s" % (r["job"], r["msg"]))

    # replay sampled paths on the unpatched code: validates the proxies
    validated, rounded, mismatches, functions = 0, 0, [], []
    samples_written = []
    if not violation:
        cases, expect = [], []
        per = max(2, 160 // max(1, len(results)))
        for res in sorted(results, key=lambda r: r["job"]):
            ss = res.get("samples", [])
            step = max(1, len(ss) // per)
            for inputs, obs in ss[::step][:per]:
                cases.append({"job": res["job"], "inputs": inputs, "trace": True})
                expect.append(obs)
        if cases:
            r = replay(check, src, work, cases)
            if "cases" not in r:
                broken.append("sample replay failed: %s" % str(r)[:2000])
            else:
                functions = r["functions"]
                for case, e, got in zip(cases, expect, r["cases"]):
                    if inexact(case["inputs"]) and (
                            got["result"] != "ok" or not same(e, got["observed"])):
                        rounded += 1
                    elif got["result"] in ("fail", "exception"):
                        violation.append({"job": case["job"], "inputs": case["inputs"],
                                          "msg": got["msg"], "confirmed": got})
                    elif got["result"] != "ok" or not same(e, got["observed"]):
                        mismatches.append([case, e, got])
                    else:
                        validated += 1
                        if len(samples_written) < 6 and len(case["inputs"]) > 1:
                            samples_written.append(
                                {"harness": case["job"], "inputs": case["inputs"],
                                 "observed": got["observed"]})
                if not samples_written:
                    samples_written = [{"harness": c["job"], "inputs": c["inputs"],
                                        "observed": g["observed"]}
                                       for c, g in zip(cases, r["cases"])][:4]
        if mismatches:
            broken.append("path samples differ on the real code: %s" % json.dumps(mismatches[:2])[:3000])
        for res in results:
            if res["status"] == "ok" and not res["witness"]:
                broken.append("vacuous: job %s reaches no assertion" % res["job"])

    tot = lambda k: sum(r.get(k, 0) for r in results)
    wit = {}
    for r in results:
        for k, v in r.get("witness", {}).items():
            wit[k] = wit.get(k, 0) + v
    queries = tot("queries")
    evidence = {
        "property": check, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("nodes") + tot("paths"),
            "transitions": tot("decisions"),
            "traces_validated_against_impl": validated,
            "samples_set_aside_for_rounding_of_reals": rounded,
            "samples": samples_written,
            "exhaustive": not broken and not violation and not cut,
            "harnesses_not_finished": sorted(r["job"] for r in cut),
            "explanation": "symbolic execution of the current sources in Jython, every "
            "feasible path within the bounds; states = nodes of the explored path tree, "
            "transitions = branch decisions put to the solver",
            "paths": tot("paths"), "infeasible_paths": tot("infeasible"),
            "assertions_reached": tot("asserts"),
            "assertion_queries": tot("assert_queries"),
            "solver_queries": queries,
            "solver_answers": {"sat": sum(r.get("answers", {}).get("sat", 0) for r in results),
                               "unsat": sum(r.get("answers", {}).get("unsat", 0) for r in results)},
            "solver_time_s": round(tot("solver_time"), 2),
            "solver": os.environ.get("SYMX_Z3", "z3-new"),
            "reachability_witnesses": wit,
            "functions_encoded": functions,
            "harnesses": dict((r["job"], {"status": r["status"], "paths": r.get("paths"),
                                          "wall_s": round(r.get("wall", 0), 2)})
                              for r in results),
            "bounds": meta.get("bounds", {}).get(TIER, meta.get("bounds", "")) if isinstance(
                meta.get("bounds", ""), dict) else meta.get("bounds", ""),
            "outside": meta.get("outside", ""),
        },
        "assumptions": meta.get("assumptions", []) + [
            "Jython 2.7.3 (the interpreter the sandbox runs the project on), its standard "
            "library and z3 are trusted",
        ],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violation),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    if violation:
        v = violation[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s.json" % check)
        json.dump({"check": check, "tier": TIER, "job": v["job"], "inputs": v["inputs"],
                   "msg": v["msg"], "confirmed": v["confirmed"],
                   "how": "bash /verif/replay.sh " + path}, open(path, "w"), indent=1)
        print("property %s: %s" % (check, v["msg"]))
        print("  harness %s, inputs %s" % (v["job"], json.dumps(v["inputs"])[:1500]))
        print("  on the real code: %s" % json.dumps(v["confirmed"].get("msg", ""))[:600])
        print("VIOLATION property=%s replay=%s" % (check, path))
        return 1
    if broken:
        for b in broken[:2]:
            print("NO ANSWER: %s" % b)
        return 2
    for r in cut:
        print("REDUCED BOUNDS: %s not finished (%s after %d paths)" % (r["job"], r["msg"], r["paths"]))
    for k in known_findings(check):
        print("KNOWN-FINDING: property=%s %s" % (check, k))
    print("%s: held; %d harnesses, %d paths, %d assertions, %d solver queries (%.1f s), "
          "%d paths replayed on the real code, %.1f s" % (
              check, len(results), tot("paths"), tot("asserts"), queries,
              tot("solver_time"), validated, time.time() - T0))
    return 0


if __name__ == "__main__":
    main()
