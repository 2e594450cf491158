"""C34: sorting."""
import itertools

from sa import harness
from sa.run import Case
from . import text

from .model import *

PORTS = ("0", "5", "10", "9", "80", "100", "65535", "443", "8080")
PROTOS = ("0", "6", "17", "130", "50", "9", "100", "255")
V4 = ("10.0.0.1", "9.255.255.255", "100.0.0.0", "192.168.1.1", "0.0.0.0", "255.255.255.255")
V6 = ("::1", "2001:db8::", "1:2:3:4:5:6:7:8", "ff02::1", "::")


def group(kind, *m):
    return (kind, "outer", st("gdesc"), st("gproto") if kind == "port" else None, m)


def case(name, g):
    return Case(name, "sort_order", (g,))


def triples(l):
    return list(itertools.permutations(l, 3))[::7] + [tuple(l), tuple(l[::-1])]


def c34(tier):
    k, h = kinds("g"), kinds("h")
    nm = (st("hn"), ip("hna"), st("hnd"))
    nets = {"host": (k["host"], h["host"]), "net": (k["net"], h["net"]), "named host": (("named", k["host"], nm), ("named", h["host"], nm)),
            "host of four": (("host", V4[0]), ("host", V4[2])), "network of four": (("net", "10.0.0.0", "8"), ("net", "9.128.0.0", "9")),
            "host of six": (("host", V6[0]), ("host", V6[2])), "network of six": (("net", "2001:db8::", "32"), ("net", "2000::", "3"))}
    for (n, (x, _)), (m, (_, y)) in itertools.product(nets.items(), nets.items()):
        both = n.endswith(("four", "six")) and m.endswith(("four", "six"))
        yield Case("network %s, %s" % (n, m), "sort_order" if both else "sort_order_here", (group("network", x, y),))
    for v in (V4 + V6,):
        for l in triples(v):
            yield case("network hosts %s" % " ".join(l), group("network", *[("host", a) for a in l]))
    ports = {"number": lambda x: ("port", "eq", x), "less": lambda x: ("port", "lt", x), "range": lambda x: ("ports", x, "65535"),
             "not": lambda x: ("port", "neq", x)}
    for a, b in itertools.permutations(PORTS, 2):
        for (n, x), (m, y) in itertools.product(ports.items(), ports.items()):
            if "65535" in (a, b) and "range" in (n, m):
                continue
            yield case("port %s %s, %s %s" % (n, a, m, b), group("port", x(a), y(b)))
            yield case("service %s %s, %s %s" % (n, a, m, b), group("service", ("svc", "tcp", None, x(a), None, None), ("svc", "tcp", None, y(b), None, None)))
    for l in triples(PORTS):
        yield case("ports %s" % " ".join(l), group("port", *[("port", "eq", a) for a in l]))
    for l in triples(PROTOS):
        yield case("protocols %s" % " ".join(l), group("protocol", *[("proto", a) for a in l]))
    for a, b in itertools.permutations(PROTOS, 2):
        yield case("protocol %s, %s" % (a, b), group("protocol", ("proto", a), ("proto", b)))
    p = ports["number"]
    sv = [("svc", "tcp", p("80"), p("9"), None, None), ("svc", "tcp", p("9"), p("80"), None, None), ("svc", "tcp", None, p("80"), None, None),
          ("svc", "tcp", p("80"), None, None, None), ("svc", "tcp", None, None, None, None), ("svc", "udp", p("9"), None, None, None),
          ("svc", "udp", ports["range"]("100"), p("5"), None, None), ("svc", "6", None, None, None, None), ("svc", "tcp", p("80"), p("80"), None, None)]
    for (i, a), (j, b) in itertools.permutations(enumerate(sv), 2):
        yield case("service %d, %d" % (i, j), group("service", a, b))
    for i, l in enumerate(triples(sv)):
        yield case("services %d" % i, group("service", *l))
    ic = [("svc", "icmp", None, None, t, c) for t, c in ((None, None), ("8", None), ("3", None), ("3", "4"), ("3", "1"), ("echo", None))]
    for (i, a), (j, b) in itertools.permutations(enumerate(ic), 2):
        yield case("service icmp %d, %d" % (i, j), group("service", a, b))
    for kind, (a, b, c) in {"port": [p(x) for x in ("80", "443", "9")], "protocol": [("proto", x) for x in ("17", "6", "50")],
                            "service": sv[:3], "network": [("host", x) for x in V4[:3]]}.items():
        for i, l in enumerate(itertools.permutations((a, b, c))):
            inner = (kind, "inner", st("idesc"), st("iproto") if kind == "port" else None, l[1:])
            yield Case("%s nested %d" % (kind, i), "sort_copy_order", (group(kind, l[0], ("sub", inner)),))
            yield Case("%s nested first %d" % (kind, i), "sort_copy_order", (group(kind, ("sub", inner), l[0]),))
    # whatever a parser builds can be sorted
    for c in text.c12(tier):
        if "group" in c.name and not ("protocol" in c.name and ("any name" in c.name or "everything" in c.name)):
            yield Case("parsed " + c.name, "read", run=parsed(c), line=c.line)


def parsed(c):
    def run():
        harness.CALL[0] = ("read_and_sort", "build_and_sort")
        try:
            return c.run()
        finally:
            harness.CALL[0] = None
    return run
