"""C26: outside effects."""
import os

from sa import effects, harness
from sa.core import MissingAnchor
from sa.dd import conj
from . import pfsense
from .text import *

PKG = "acltk"
ROOTS = ("fromString", "fromFile", "parse", "filter", "expand", "resolve")


def site_case(sc, f, path_only, tables):
    def run():
        r = harness.Result()
        r.reached = {(f.qual, f.where)}
        r.calls = f.externals + len(f.refs)
        for kind, what, line in f.sites:
            ok = (kind == effects.READ and f in path_only) or (kind == effects.NET and f in tables) or f.mains
            if ok:
                continue
            if kind == effects.UNKNOWN:
                if r.status == "same":
                    r.status, r.text = "undecided", "%s:%d %s: what it does is not known" % (f.path, line, what)
            else:
                r.status, r.text = "differs", "%s:%d %s %s: %s" % (f.path, line, f.qual, kind, what)
        return r
    return Case("sites of %s at %s" % (f.qual, f.where.split(":")[1]), "effects of a function", run=run)


def c26(tier):
    sc = effects.Scan(os.path.join(harness.REPO, "lib"), PKG, harness.REPO)
    entry = [f for f in sc.fns if f.name == "fromPath" and f.cls]
    programs = sc.closed(lambda f: f.mains)
    path_only = sc.closed(lambda f: f in entry, ROOTS) | programs
    tables = sc.closed(lambda f: f.mod.rsplit(".", 1)[-1].startswith("pfsense"))
    for f in sc.fns:
        yield site_case(sc, f, path_only, tables)

    def anchors():
        if not entry:
            raise MissingAnchor("fromPath")
        return harness.Result()
    yield Case("entry points that take a path", "fromPath", run=anchors)
    # on which configurations a table is fetched
    for g in (pfsense.c16, pfsense.c17):
        for c in g(tier):
            yield Case("effects: " + c.name + (" (aliases)" if g is pfsense.c17 else ""), c.fn, run=only_effects(c), line=c.line)


def only_effects(c):
    def run():
        harness.EFFECTS_ONLY[0] = True
        try:
            return c.run()
        finally:
            harness.EFFECTS_ONLY[0] = False
    return run
