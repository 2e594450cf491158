"""Obligations over numbers: C23."""
from .refs import *

BYTE_IN = ("0", "[1-9]", "[1-9][0-9]", "1[0-9][0-9]", "2[0-4][0-9]", "25[0-5]")
BYTE_OUT = ("25[6-9]", "2[6-9][0-9]", "[3-9][0-9][0-9]", "[1-9][0-9]{3}", "[1-9][0-9]{4,6}", "[1-9][0-9]{9,30}", "0[3-9][0-9][0-9]")
PORT_IN = ("0", "[1-9][0-9]{0,3}", "[1-5][0-9]{4}", "6[0-4][0-9]{3}", "65[0-4][0-9]{2}", "655[0-2][0-9]", "6553[0-5]")
PORT_OUT = ("6553[6-9]", "655[4-9][0-9]", "65[6-9][0-9]{2}", "6[6-9][0-9]{3}", "[7-9][0-9]{4}", "[1-9][0-9]{5}", "[1-9][0-9]{6,30}",
            "0[7-9][0-9]{4}")
# every pair: the first is numerically below the second
BELOW = (("[1-4]", "[5-9]"), ("0", "[1-9]"), ("[2-9]", "1[0-9]"), ("[1-9]", "[1-9][0-9]"), ("[2-9][0-9]", "1[0-9]{2}"),
         ("[1-9][0-9]{0,2}", "1[0-9]{3}"), ("[2-9][0-9]{3}", "1[0-9]{4}"), ("1[0-4][0-9]", "1[5-9][0-9]"), ("12[0-4]", "12[5-9]"),
         ("[1-4][0-9]{4}", "5[0-9]{4}"), ("123[0-4]", "123[5-9]"), ("65[0-4][0-9]{2}", "655[0-3][0-5]"), ("6553[0-3]", "6553[45]"),
         ("443", "8443"), ("99", "100"), ("1023", "1024"), ("0", "65535"), ("65534", "65535"))


def one(shape):
    """any number of the class"""
    if "[" not in shape:
        return shape
    return slot("n" + shape.replace("{", "(").replace("}", ")"), (shape,), numeric=True)


def protocols(x):
    S = (["host ", ip4("h")], ("host", ip4("h")), None)
    yield "rule", "asa", ext("A", "permit", [x], ("name", x), S, ANY)
    yield "service object", "asa", Form((["object service S\n service ", x], ("sobj", "S", None, (x, None, None, None, None))))
    yield "service member", "asa", Form((["object-group service S\n service-object ", x], ("group", "service", "S", None, ((x, None, None, None, None),))))
    yield "member of a protocol group", "asa", Form((["object-group protocol S\n protocol-object ", x], ("group", "protocol", "S", None, (("proto", x),))))
    yield "entry", "ios", nlist("extended", "A", next_("A", "permit", [x], ("name", x), S, ANY))
    yield "numbered entry", "ios", numext("101", "deny", [x], ("name", x), S, ANY)
    yield "ipv6 entry", "ios", list6("A", ("10",) + six("A", "deny", [x], ("name", x), hosts6("s")["net"], hosts6("d")["any"]))
    yield "service member of ios", "ios", Form((["object-group service S\n ", x], ("group", "service", "S", None, ((x, None, None, None, None),))))


def icmps(x):
    S = (["host ", ip4("h")], ("host", ip4("h")), None)
    for p in ("icmp", "icmp6"):
        for what, t, d in (("type", [x], (x, None)), ("type before a code", [x, " 1"], (x, "1")), ("code", ["unreachable ", x], ("unreachable", x)),
                           ("code after a number", ["3 ", x], ("3", x))):
            yield "rule %s %s" % (p, what), "asa", ext("A", "permit", *P(p), S, ANY, tail=[" "] + t, icmp=d)
            yield "entry %s %s" % (p, what), "ios", nlist("extended", "A", next_("A", "permit", *P(p), S, ANY, tail=[" "] + t, icmp=d))
            yield "numbered entry %s %s" % (p, what), "ios", numext("101", "permit", *P(p), S, ANY, tail=[" "] + t, icmp=d)
            f = (p, None, None) + d
            yield "service object %s %s" % (p, what), "asa", Form((["object service S\n service " + p + " "] + t, ("sobj", "S", None, f)))
            yield "service member %s %s" % (p, what), "asa", Form((
                ["object-group service S\n service-object " + p + " "] + t, ("group", "service", "S", None, (f,))))
            yield "service member of ios %s %s" % (p, what), "ios", Form((
                ["object-group service S\n " + p + " "] + t, ("group", "service", "S", None, (f,))))
    yield "member of an icmp group", "asa", Form((["object-group icmp-type S\n icmp-object ", x], ("group", "icmp", "S", None, (("icmp", x),))))


def port_places(t, d, ranges=False):
    """t: text of the ports, d: what it means"""
    S = (["host ", ip4("h")], ("host", ip4("h")), None)
    p = ([" "] + t, d)
    for pr in ("tcp", "udp"):
        yield "source of %s" % pr, "asa", ext("A", "permit", *P(pr), S, ANY, sp=p)
        yield "destination of %s" % pr, "asa", ext("A", "deny", *P(pr), S, ANY, dp=p, tail=[" log"], opts=(("log!", ()),))
        yield "source of ios %s" % pr, "ios", nlist("extended", "A", next_("A", "permit", *P(pr), S, ANY, sp=p))
        yield "destination of ios %s" % pr, "ios", nlist("extended", "A", next_("A", "permit", *P(pr), S, ANY, dp=p))
        yield "source of numbered %s" % pr, "ios", numext("101", "permit", *P(pr), S, ANY, sp=p)
        yield "destination of numbered %s" % pr, "ios", numext("101", "permit", *P(pr), S, ANY, dp=p)
        yield "destination of ipv6 %s" % pr, "ios", list6("A", ("10",) + six("A", "deny", *P(pr), hosts6("s")["net"], hosts6("d")["any"], dp=p))
        yield "source of ipv6 %s" % pr, "ios", list6("A", ("10",) + six("A", "deny", *P(pr), hosts6("s")["net"], hosts6("d")["any"], sp=p))
    yield "webtype", "asa", Form((["access-list A webtype permit tcp "] + S[0] + p[0],
                                  ace("A", "permit", ("name", "tcp"), ("any",), None, S[1], d, typ="webtype")))
    for side, f in (("source", ("tcp", d, None, None, None)), ("destination", ("tcp", None, d, None, None))):
        yield "service object " + side, "asa", Form((["object service S\n service tcp " + side + " "] + t + [" "], ("sobj", "S", None, f)))
        yield "service member " + side, "asa", Form((
            ["object-group service S\n service-object tcp " + side + " "] + t + [" "], ("group", "service", "S", None, (f,))))
        yield "service member of ios " + side, "ios", Form((
            ["object-group service S\n tcp " + side + " "] + t + [" "], ("group", "service", "S", None, (f,))))
    if d[0] in ("eq", "range"):
        for pr in ("tcp", "tcp-udp"):
            yield "port member " + pr, "asa", Form((["object-group service S " + pr + "\n port-object "] + t, ("group", "port", "S", None, (d,), pr)))
        yield "port member of ios", "ios", Form((["object-group service S udp\n port-object "] + t, ("group", "port", "S", None, (d,), "udp")))


def nat_ports(r, m):
    return defs(iface("eth0", "in"), iface("eth1", "out")) + Form((
        ["object network USER\n host ", ip4("u"), "\n nat (in,out) static ", ip4("m"), " service tcp ", r, " ", m],
        ("nobj", "USER", None, ("host", ip4("u")), ("in", "out", "static", ("host", ip4("m")), None, ("tcp", r, m), ()))))


def c23(tier):
    few = tier == "quick"
    for what, gen, good, bad in (("protocol", protocols, BYTE_IN, BYTE_OUT), ("icmp", icmps, BYTE_IN, BYTE_OUT)):
        for s in good:
            for n, dia, f in gen(one(s)):
                yield conf(tier, "%s %s of %s" % (what, s, n), dia, f, variants=(0,))
        for s in bad + ("-1", "+1", "1.5", "0x1"):
            for n, dia, f in gen(one(s)):
                if s not in bad and n == "member of a protocol group":
                    continue                     # a name, and names of protocols are not limited here
                yield conf(tier, "rejects %s %s of %s" % (what, s, n), dia, f, reject=True, variants=(0,))
    for s in PORT_IN + PORT_OUT + ("-1",):
        bad = s not in PORT_IN
        x = one(s)
        for op in ("eq", "neq", "gt", "lt") if not few or s in ("0", "6553[0-5]", "6553[6-9]", "[1-9][0-9]{0,3}") else ("eq",):
            for n, dia, f in port_places([op + " ", x], (op, x)):
                yield conf(tier, "%sport %s %s of %s" % ("rejects " if bad else "", op, s, n), dia, f, reject=bad, variants=(0,))
        for t, d, k in ((["range 0 ", x], ("range", "0", x), "end"), (["range ftp ", x], ("range", "ftp", x), "end after a name"),
                        (["range ", x, " telnet"], ("range", x, "telnet"), "start before a name")):
            if s == "0" and k == "end":
                continue
            for n, dia, f in port_places(t, d):
                yield conf(tier, "%srange %s %s of %s" % ("rejects " if bad else "", k, s, n), dia, f, reject=bad, variants=(0,))
        yield conf(tier, "%snat real port %s" % ("rejects " if bad else "", s), "asa", nat_ports(x, "80"), reject=bad, variants=(0,))
        yield conf(tier, "%snat mapped port %s" % ("rejects " if bad else "", s), "asa", nat_ports("80", x), reject=bad, variants=(0,))
    for a, b in BELOW:
        x, y = one(a), one(b)
        for n, dia, f in port_places(["range ", x, " ", y], ("range", x, y)):
            yield conf(tier, "range %s to %s of %s" % (a, b, n), dia, f, variants=(0,))
        for n, dia, f in port_places(["range ", y, " ", x], ("range", y, x)):
            yield conf(tier, "rejects range %s to %s of %s" % (b, a, n), dia, f, reject=True, variants=(0,))
    for s in PORT_IN:
        x = one(s)
        for n, dia, f in port_places(["range ", x, " ", x], ("range", x, x)):
            yield conf(tier, "rejects range %s to itself of %s" % (s, n), dia, f, reject=True, variants=(0,))
    for a, b in (("www", "ftp"), ("telnet", "telnet"), ("ftp", "telnet")):
        for n, dia, f in port_places(["range %s %s" % (a, b)], ("range", a, b)):
            yield conf(tier, "range %s to %s of %s" % (a, b, n), dia, f, variants=(0,))
    for a, b in BELOW:
        yield Case("PortRange %s to %s" % (a, b), "port_range", (one(a), one(b)))
        yield Case("PortRange %s to %s" % (b, a), "port_range", (one(b), one(a)))
    num = lambda p: sym(p, ty="str", numeric=True, truthy=True)
    yield Case("PortRange of any numbers", "port_range", (num("pa"), num("pb")))
    yield Case("PortRange of one number", "port_range", (num("pa"), num("pa")))
    for a in ("www", "ftp", "", "a1", "1a"):
        yield Case("PortRange %s to any number" % a, "port_range", (a, num("pb")))
        yield Case("PortRange any number to %s" % a, "port_range", (num("pb"), a))
