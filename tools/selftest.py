#!/usr/bin/env python3
"""The interpreter of the analysis against CPython.

Every function t_* of the files in tools/selftest takes up to four truth values.  The
analysis runs it once with unknown values; for each combination its result must be
what CPython computes, or the analysis must have said that it cannot tell."""
import importlib.util
import itertools
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
from sa import harness  # noqa
from sa.core import Program  # noqa
from sa.dd import *  # noqa
from sa.interp import Interp, State, Undecided  # noqa


class Unknown(Exception):
    pass


def render(ip, st, n, env, seen=()):
    while n.var != INF:
        a = atoms[n.var]
        if n.var not in env:
            raise Unknown("depends on %s" % (a[:2],))
        n = n.hi if env[n.var] else n.lo
    l = n.leaf
    if l[0] == "c":
        return l[2]
    if l[0] == "t" and l[1] == "fmt":
        return "".join(render(ip, st, x, env, seen) for x in l[2:])
    if l[0] == "raise":
        return "raise " + str(l[1])
    if l[0] == "class":
        return "class " + l[1].name
    if l[0] == "t" and l[1] == "tuple":
        return tuple(render(ip, st, x, env, seen) for x in l[2:])
    if l[0] == "t" and l[1] == "ntuple":
        return tuple(render(ip, st, x, env, seen) for x in l[4:])
    if l[0] == "t" and l[1] == "exc":
        return "exc " + l[2]
    if l[0] == "r":
        if l[1] in seen:
            return "..."
        seen = seen + (l[1],)
        o = st.heap[l[1]]
        val = lambda g: render(ip, st, g, env)
        if o.kind in ("list", "set"):
            it = [render(ip, st, v, env, seen) for g, v in o.data if val(g) is True]
            return it if o.kind == "list" else {"set": sorted(set(map(repr, it)))}
        if o.kind in ("dict", "ast"):
            d = {}
            for k, g, v in o.data:
                if val(g) is True:
                    d[render(ip, st, k, env, seen)] = render(ip, st, v, env, seen)
            return d
        if o.kind == "inst":
            return {"class": o.cls.name, **{k: render(ip, st, v, env, seen) for k, v in sorted(o.data.items())}}
    raise Unknown("value %s" % (l[:2],))


def plain(v, seen=()):
    if isinstance(v, (str, int, float, bool, bytes, type(None))):
        return v
    if id(v) in seen:
        return "..."
    seen = seen + (id(v),)
    if isinstance(v, tuple):
        return tuple(plain(x, seen) for x in v)
    if isinstance(v, (set, frozenset)):
        return {"set": sorted(set(repr(plain(x, seen)) for x in v))}
    if isinstance(v, dict):
        return {plain(k, seen): plain(x, seen) for k, x in v.items()}
    if isinstance(v, type):
        return "class " + v.__name__
    if isinstance(v, BaseException):
        return "exc " + type(v).__name__
    if hasattr(v, "__dict__") and type(v).__module__.startswith("st_"):
        return {"class": type(v).__name__, **{k: plain(x, seen) for k, x in sorted(vars(v).items())}}
    try:
        return [plain(x, seen) for x in v]
    except TypeError:
        return repr(v)


def main():
    only = sys.argv[1:]
    d = os.path.join(HERE, "selftest")
    files = sorted(f[:-3] for f in os.listdir(d) if f.endswith(".py"))
    n = bad = und = 0
    for f in files:
        spec = importlib.util.spec_from_file_location(f, os.path.join(d, f + ".py"))
        real = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(real)
        for name in [k for k in vars(real) if k.startswith("t_")]:
            if only and not any(name.startswith(o) for o in only):
                continue
            fn = getattr(real, name)
            k = fn.__code__.co_argcount
            n += 1
            prog = Program(d)
            ip = Interp(prog)
            ps = [atom(("param", name, i)) for i in range(k)]
            st = State()
            try:
                m = prog.module(f)
                v, s = ip.run(ip.global_lookup(m, name, st), ps, {}, st)
            except Undecided as e:
                und += 1
                print("undecided %s.%s: %s" % (f, name, str(e)[:100]))
                continue
            except Exception as e:
                bad += 1
                print("CRASH %s.%s: %s %s" % (f, name, type(e).__name__, str(e)[:100]))
                continue
            for vals in itertools.product((True, False), repeat=k):
                try:
                    want = plain(fn(*vals))
                except Exception as e:
                    want = "raise " + type(e).__name__
                env = {p.var: x for p, x in zip(ps, vals)}
                try:
                    got = render(ip, s, v, env)
                except Unknown as e:
                    und += 1
                    print("undecided %s.%s%r: %s" % (f, name, vals, e))
                    break
                if repr(got) != repr(want):
                    bad += 1
                    print("WRONG %s.%s%r: analysis %r, python %r" % (f, name, vals, got, want))
                    break
    print("%d functions, %d wrong, %d undecided" % (n, bad, und))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
