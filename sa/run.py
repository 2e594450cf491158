"""Run the cases of a property, report, write evidence."""
import json
import math
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter

from .dd import *
from .core import *
from . import harness

EVID = os.path.join(harness.VERIF, "evidence")
KNOWN = os.path.join(harness.VERIF, "known-findings.txt")
CASE_SECONDS = 200


class Case:
    """one obligation: the entry point means the same in both trees on the abstract arguments"""

    def __init__(self, name, fn, args=(), mod="drv_model", assume=TRUE, prep=None, identity=(), ignore=(), run=None,
                 line=None):
        self.name = name
        self.fn = fn
        self.args = args
        self.mod = mod
        self.assume = assume
        self.prep = prep
        self.identity = identity
        self.ignore = ignore
        self.run = run      # other kinds of obligations: () -> Result
        self.line = line    # what was abstractly parsed


class Timeout(BaseException):
    pass


def alarm(*_):
    raise Timeout()


def run_one(case):
    t = time.time()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(CASE_SECONDS)
    try:
        if case.run:
            r = case.run()
        else:
            r = harness.run_case(case.mod, case.fn, case.args, assume=case.assume, prep=case.prep,
                                 identity=case.identity, ignore=case.ignore)
    except MissingAnchor as e:
        r = harness.Result()
        r.status, r.text = "broken", "missing anchor %s" % e
    except Undecided as e:
        r = harness.Result()
        r.status, r.text = "undecided", "reference: %s" % e
    except Timeout:
        r = harness.Result()
        r.status, r.text = "undecided", "no result after %d s" % CASE_SECONDS
    except MemoryError:
        r = harness.Result()
        r.status, r.text = "undecided", "out of memory"
    except RecursionError:
        r = harness.Result()
        r.status, r.text = "undecided", "recursion"
    except Exception as e:
        r = harness.Result()
        r.status, r.text = "undecided", "analyser: %r %s" % (e, traceback.format_exc(limit=-3))
    finally:
        signal.alarm(0)
    return dict(name=case.name, status=r.status, text=r.text, secs=round(time.time() - t, 3), calls=r.calls, rejects=r.rejects,
                reached=sorted((f.qual, "%s:%d" % (os.path.relpath(f.module.path, harness.REPO), f.node.lineno)) if hasattr(f, "where") else f for f in r.reached),
                fn=case.fn, args=show_args(case.args), line=case.line)


def show_args(args):
    def s(a):
        if callable(a):
            return "<built>"
        if isinstance(a, (tuple, list)):
            return "(" + ", ".join(s(i) for i in a) + ")"
        if isinstance(a, Node):
            return show(a)
        return repr(a)
    return s(list(args))


def show(n):
    return show_leaf(n.leaf) if n.leaf is not None else "<%d>" % n.id


MEMORY = 2600 << 20         # what one worker may take
RETIRE = 1200 << 10         # KiB; a worker that grew beyond this is replaced
DEADLINE = 800              # seconds for all cases


def failed(case, why):
    r = harness.Result()
    r.status, r.text = "undecided", why
    return dict(name=case.name, status=r.status, text=r.text, secs=0, calls=0, rejects=False, reached=[], fn=case.fn,
                args=show_args(case.args), line=case.line)


def work(cases, conn):
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    while True:
        i = conn.recv()
        if i is None:
            os._exit(0)
        try:
            r = run_one(cases[i])
        except MemoryError:
            r = failed(cases[i], "out of memory")
        full = r["text"] == "out of memory" or resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > RETIRE
        conn.send((i, r, full))
        if full:
            os._exit(0)


def run_all(cases, jobs):
    """workers are forked, get one case at a time, and are replaced when they grow too big or die"""
    harness.program("repo")
    harness.program("spec")
    if jobs <= 1 or len(cases) < 4:
        sys.setrecursionlimit(20000)
        return [run_one(c) for c in cases]
    end = time.time() + DEADLINE
    ctx = multiprocessing.get_context("fork")
    res = [None] * len(cases)
    todo = list(range(len(cases)))[::-1]
    workers = {}        # connection -> [process, case]

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=work, args=(cases, b), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None]
        give(a)

    def give(a):
        if todo:
            workers[a][1] = todo.pop()
            a.send(workers[a][1])
        else:
            drop(a)

    def drop(a):
        p, _ = workers.pop(a)
        a.close()
        p.terminate()
        p.join()

    for _ in range(min(jobs, len(cases))):
        start()
    while workers:
        ready = multiprocessing.connection.wait(list(workers), timeout=max(0, end - time.time()))
        if not ready:
            break
        for a in ready:
            try:
                i, r, full = a.recv()
            except (EOFError, OSError):
                i, full = workers[a][1], True
                r = failed(cases[i], "the analyser died")
            res[i] = r
            if full:
                drop(a)
                if todo:
                    start()
            else:
                give(a)
    for a in list(workers):
        drop(a)
    return [r or failed(c, "out of time") for c, r in zip(cases, res)]


def known(prop):
    r = {}
    try:
        with open(KNOWN) as f:
            for l in f:
                l = l.strip()
                if l.startswith("known: property=%s " % prop):
                    head, _, what = l.partition(" :: ")
                    r[head.split(" case=")[1].strip()] = what
    except FileNotFoundError:
        pass
    return r


def suspects(bad, good):
    """functions whose presence goes with the differences (Ochiai)"""
    b, g = Counter(), Counter()
    for r in bad:
        b.update(map(tuple, r["reached"]))
    for r in good:
        g.update(map(tuple, r["reached"]))
    n = len(bad)
    s = sorted(((b[f] / math.sqrt(n * (b[f] + g[f])), f) for f in b), key=lambda x: (-x[0], x[1]))
    return s[:5]


def check(prop, cases, tier, explanation, floor=1, assumptions=(), jobs=None, only=None):
    t0 = time.time()
    if only:
        cases = [c for c in cases if c.name == only]
    names = Counter(c.name for c in cases)
    dup = [n for n, k in names.items() if k > 1]
    assert not dup, dup[:5]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    res = run_all(cases, jobs or int(os.environ.get("VERIF_JOBS", "8")))
    by = {k: [r for r in res if r["status"] == k] for k in ("same", "differs", "undecided", "broken")}
    kf = known(prop)
    listed = [r for r in by["differs"] if r["name"] in kf]
    bad = [r for r in by["differs"] if r["name"] not in kf]
    funcs = sorted({tuple(f) for r in res for f in r["reached"]})
    os.makedirs(EVID, exist_ok=True)
    cov = dict(
        explanation=explanation,
        obligations=len(res), discharged=len(by["same"]), differing=len(by["differs"]),
        undecided=len(by["undecided"]), rejected_by_specification=sum(r["rejects"] for r in res),
        calls_interpreted=sum(r["calls"] for r in res),
        functions_analysed=len(funcs), functions=["%s (%s)" % f for f in funcs],
        undecided_cases=[dict(case=r["name"], why=r["text"][:300]) for r in by["undecided"]][:40],
        samples=[dict(case=r["name"], entry=r["fn"], arguments=r["args"][:400], verdict=r["status"],
                      **({"line": r["line"]} if r["line"] else {}))
                 for r in res[:: max(1, len(res) // 8)]][:10])
    code = 0
    for r in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[r["name"]]))
    for r in by["undecided"]:
        print("UNDECIDED: property=%s case=%s %s" % (prop, r["name"], r["text"].split("\n")[0][:200]))
    for r in by["broken"]:
        print("BROKEN: property=%s case=%s %s" % (prop, r["name"], r["text"][:300]))
    if bad:
        path = os.path.join(EVID, "%s.violation.json" % prop)
        sus = suspects(bad, by["same"])
        with open(path, "w") as f:
            json.dump(dict(property=prop, suspects=["%.2f %s %s" % (x, a, b) for x, (a, b) in sus],
                           cases=bad[:50], differing=len(bad), rerun="python3 check.py %s --case NAME" % prop), f, indent=1)
        for r in bad[:5]:
            print("case %s%s: %s" % (r["name"], " [%s]" % r["line"] if r["line"] else "", r["text"]))
        if len(bad) > 5:
            print("... and %d more cases" % (len(bad) - 5))
        for x, (a, b) in sus[:3]:
            print("in: %s at %s (%.2f)" % (a, b, x))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif by["broken"] or (not only and len(res) < floor) or len(by["undecided"]) * 10 > len(res) * 9:
        print("ANALYSIS BROKEN: property=%s %d cases, %d undecided, %d broken" % (
            prop, len(res), len(by["undecided"]), len(by["broken"])))
        code = 2
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, assumptions=list(assumptions),
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    if not only:
        with open(os.path.join(EVID, "%s.json" % prop), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d same, %d differ (%d listed), %d undecided; %d functions; %.1f s" % (
        prop, len(res), len(by["same"]), len(by["differs"]), len(listed), len(by["undecided"]), len(funcs),
        time.time() - t0))
    return code
