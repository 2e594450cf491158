"""C31: printing."""
from sa import harness
from sa.core import *
from sa.run import Case
from . import ifaces, ios, model, pfsense, query, text, times
from .model import *

TEXTS = (text.c11, text.c12, text.c13, ios.c14, ifaces.c15, pfsense.c16, pfsense.c17, times.c25, query.c06, query.c07)


def printed(c):
    def run():
        harness.PRINTED[0] = True
        try:
            return c.run()
        finally:
            harness.PRINTED[0] = False
    return run


def of(name, fn, *args):
    return Case(name, fn, args, run=lambda: harness.never_raises("drv_show", fn, [harness.node(a) for a in args]))


def objects():
    for k in KINDS:
        yield of("a %s" % k, "kind_shown", k)
        for c in CONTAINERS:
            yield of("%s of %s" % (c, k), "container_shown", c, k)
    every = dict(kinds("x"), **groups("x"))
    every.update(QUERY)
    for n, x in every.items():
        yield of("a node of %s" % n, "built_shown", x)
        yield of("a rule from %s" % n, "rule_shown", (None, x, ("any",)) + fullrule("x")[3:])
        yield of("a rule to %s" % n, "rule_shown", (st("rid"), ("any",), x) + (None,) * 4 + fullrule("x")[7:])
    for n, d in nat_cases():
        yield of("nat %s" % n, "nat_shown", d[:5] + (None,))
    for n, g in group_cases():
        yield of("group %s" % n, "group_shown", g)
        yield of("group %s without a description" % n, "group_shown", g[:2] + (None,) + g[3:])
    for s in (None, sym("t1", ty="datetime", truthy=True)):
        for e in (None, sym("t2", ty="datetime", truthy=True)):
            for days in (("Monday",), ("Monday", "Friday"), ("daily",)):
                for eday in (None, "Sunday"):
                    yield of("times %s %s %s %s" % (s is None, e is None, days, eday), "times_shown", s, e, days, eday)


def expressions():
    A = ("rule",) + crit("a")
    B = ("rule",) + crit("b", "host", "any", rid=False)
    D = ("block", ("rule",) + crit("d", "any4", "net", rid=False))
    es = [A, B, D]
    for o in ("union", "intersect", "except"):
        es.append((o, A, B))
        for p in ("union", "intersect", "except"):
            es += [(o, (p, A, B), D), (o, D, ("block", (p, B, A)))]
    return es


def c31(tier):
    yield from objects()
    for i, e in enumerate(expressions()):
        yield of("expression %d" % i, "expression_shown", e)
        for nr, nn in ((0, 0), (1, 0), (0, 1), (2, 2)):
            yield of("filter by expression %d of %d rules, %d nat" % (i, nr, nn), "filtered", e, somerules("r", nr), somenats("n", nn))
    for c in model.c10(tier):
        if c.fn in ("resolve_rule", "resolve_nat"):
            yield of("resolved: %s" % c.name, "resolved_shown" if c.fn == "resolve_rule" else "resolved_nat_shown", *c.args)
    for g in TEXTS:
        for c in g(tier):
            if c.run and c.line:
                yield Case("%s: %s" % (g.__name__, c.name), "printing", run=printed(c), line=c.line)
