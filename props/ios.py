"""Obligations over IOS configuration texts: C14."""
from .text import *

STD = ("[1-9]", "[1-9][0-9]", "13[0-9][0-9]")
EXTN = ("1[0-9][0-9]", "2[0-6][0-9][0-9]")
NUMBERS = ("[1-9]", "[1-9][0-9]", "[1-9][0-9]{2,3}", "[1-9][0-9]{4}")
IDENTS = ("[a-z][0-9][a-z0-9]{1,6}", "[A-Z][a-z0-9]{1,6}", "[a-z][-][a-z]{2,4}", "[A-Z]{1,4}_[0-9]{1,3}")


def std(p):
    return slot(p + ".std", STD, numeric=True)


def extn(p):
    return slot(p + ".extn", EXTN, numeric=True)


def num(p):
    return slot(p + ".num", NUMBERS, numeric=True)


def ident(p):
    return slot(p + ".ident", IDENTS)


def bits(mask):
    n = 0
    for b in mask.split("."):
        n = n * 256 + int(b)
    return format(n, "032b")


def dotted(b):
    return ".".join(str(int(b[i:i + 8], 2)) for i in (0, 8, 16, 24))


def wild(addr, mask):
    """an address and a wildcard: set bits are ignored"""
    b = bits(mask)
    k = b.find("1") if "1" in b else 32
    if "0" not in b[k:]:
        return ([addr, " " + mask], ("net", addr, str(k)), None)
    return ([addr, " " + mask], ("wild", addr, mask), None)


def hosts(p, bare=False):
    U = p.upper()
    a, h = ip4(p + "a"), ip4(p + "h")
    r = {
        "host": (["host ", h], ("host", h), None),
        "any": (["any"], ("any",), None),
        "one": wild(a, "0.0.0.0"),
        "net": wild(a, "0.0.0.255"),
        "all": wild(a, "255.255.255.255"),
        "odd": wild(a, "0.0.255.252"),
        "inner": wild(a, "0.255.0.255"),
        "group": (["object-group " + U + "GRP"], ("group", U + "GRP"), Form(
            (["object-group network " + U + "GRP\n host ", ip4(p + "g")],
             ("group", "network", U + "GRP", None, (("host", ip4(p + "g")),))))),
    }
    if bare:
        r["bare"] = ([h], ("host", h), None)
    return r


def ports(p):
    r = asa_ports(p)
    return r


def nlist(kind, name, *entries):
    """a named list: entries are (text, rule)"""
    t = ["ip access-list " + kind + " ", name]
    rules = []
    for e, d in entries:
        t += ["\n "] + list(e)
        if d is not None:
            rules.append(d)
    return Form((t, ("rules", tuple(rules))))


def nstd(name, mode, s, opts=(), remarks=(), pre=(), tail=()):
    return (list(pre) + [mode + " "] + s[0] + list(tail),
            ace(name, mode, ("name", "ip"), s[1], None, ("any",), None, None, opts, remarks, typ="standard"))


def next_(name, mode, ptext, proto, s, d, sp=([], None), dp=([], None), tail=(), icmp=None, opts=(), remarks=(), pre=()):
    return (list(pre) + [mode + " "] + list(ptext) + [" "] + s[0] + sp[0] + [" "] + d[0] + dp[0] + list(tail),
            ace(name, mode, proto, s[1], sp[1], d[1], dp[1], icmp, opts, remarks))


def numbered(rid, mode, s, opts=(), remarks=(), tail=()):
    return Form((["access-list ", rid, " " + mode + " "] + s[0] + list(tail),
                 ace(rid, mode, ("name", "ip"), s[1], None, ("any",), None, None, opts, remarks, typ=None)))


def numext(rid, mode, ptext, proto, s, d, sp=([], None), dp=([], None), tail=(), icmp=None, opts=(), remarks=()):
    return Form((["access-list ", rid, " " + mode + " "] + list(ptext) + [" "] + s[0] + sp[0] + [" "] + d[0] + dp[0] + list(tail),
                 ace(rid, mode, proto, s[1], sp[1], d[1], dp[1], icmp, opts, remarks, typ=None)))


STD_OPTIONS = {"none": ([], ()), "log": ([" log"], (("log", None),)), "log word": ([" log ", ident("lw")], (("log", ident("lw")),))}

EXT_OPTIONS = {
    "none": ([], ()),
    "precedence": ([" precedence ", ident("op")], (("precedence", ident("op")),)),
    "dscp": ([" dscp ", ident("od")], (("dscp", ident("od")),)),
    "tos": ([" tos ", ident("ot")], (("tos", ident("ot")),)),
    "time-range": ([" time-range ", ident("or")], (("time-range", ident("or")),)),
    "fragments": ([" fragments"], (("fragments", None),)),
    "log": ([" log"], (("log", None),)),
    "log word": ([" log ", ident("ol")], (("log", ident("ol")),)),
    "log-input": ([" log-input"], (("log-input", None),)),
    "log-input word": ([" log-input ", ident("oi")], (("log-input", ident("oi")),)),
    "established": ([" established"], (("established", None),)),
}

IP6_OPTIONS = {
    "none": ([], ()),
    "dest-option-type": ([" dest-option-type ", ident("oe")], (("dest-option-type", ident("oe")),)),
    "dscp": ([" dscp ", ident("od")], (("dscp", ident("od")),)),
    "flow-label": ([" flow-label ", ident("of")], (("flow-label", ident("of")),)),
    "fragments": ([" fragments"], (("fragments", None),)),
    "log-input": ([" log-input"], (("log-input", None),)),
    "log": ([" log"], (("log", None),)),
    "mobility-type": ([" mobility-type ", num("om")], (("mobility-type", num("om")),)),
    "mobility": ([" mobility"], (("mobility", None),)),
    "routing-type": ([" routing-type ", num("og")], (("routing-type", num("og")),)),
    "routing": ([" routing"], (("routing", None),)),
    "time-range": ([" time-range ", ident("or")], (("time-range", ident("or")),)),
}


def hosts6(p):
    a, h = ip6(p + "a"), ip6(p + "h")
    return {"host": (["host ", h], ("host", h), None), "any": (["any"], ("any",), None),
            "net": ([a, "/", pfx6(p + "m")], ("net", a, pfx6(p + "m")), None)}


def list6(name, *entries):
    t = ["ipv6 access-list ", name]
    rules = []
    for seq, e, d in entries:
        t += ["\n sequence ", seq, " "] + e
        rules.append(d[:10] + (d[10] + (("sequence", seq),),) + d[11:])
    return Form((t, ("rules", tuple(rules))))


def six(name, mode, ptext, proto, s, d, sp=([], None), dp=([], None), tail=(), opts=()):
    t, r = next_(name, mode, ptext, proto, s, d, sp, dp, tail, None, opts)
    return t, r[:2] + (None,) + r[3:]


def c14(tier):
    n = nm("acl")
    S, D = hosts("s"), hosts("d")
    SB = hosts("s", bare=True)
    SP, DP = ports("s"), ports("d")
    T = P("tcp")
    # wildcards
    prefixes = [dotted("0" * k + "1" * (32 - k)) for k in range(33)]
    single = [dotted("0" * k + "1" + "0" * (31 - k)) for k in range(32)]
    runs = [dotted("0" * i + "1" * (j - i) + "0" * (32 - j)) for i in range(0, 32, 3) for j in range(i + 2, 32, 4)]
    upper = [dotted("1" * k + "0" * (32 - k)) for k in range(1, 32)]
    for what, masks in (("prefixes", prefixes), ("single bits", single), ("runs", runs), ("upper bits", upper),
                        ("holes", ["0.255.255.254", "255.0.0.255", "0.0.254.255", "1.2.3.4", "127.255.255.254", "0.0.1.1"])):
        for c in range(0, len(masks), 11):
            some = masks[c:c + 11]
            yield conf(tier, "wildcards %s %d standard" % (what, c), "ios", nlist(
                "standard", n, *[nstd(n, "permit", wild(ip4("w"), m)) for m in some]))
            yield conf(tier, "wildcards %s %d extended" % (what, c), "ios", nlist(
                "extended", n, *[next_(n, "deny", *P("ip"), wild(ip4("w"), m), wild(ip4("v"), m)) for m in some]))
            f = Form()
            for m in some:
                f = f + numbered(std("id"), "permit", wild(ip4("w"), m)) + numext(
                    extn("ix"), "deny", *P("ip"), wild(ip4("w"), m), wild(ip4("v"), m))
            yield conf(tier, "wildcards %s %d numbered" % (what, c), "ios", f)
    # standard
    for m in ("permit", "deny"):
        for i in SB:
            for o, (t, d) in STD_OPTIONS.items():
                yield conf(tier, "standard %s %s %s" % (m, i, o), "ios", defs(SB[i][2]) + nlist(
                    "standard", n, nstd(n, m, SB[i], d, tail=t)))
                yield conf(tier, "numbered standard %s %s %s" % (m, i, o), "ios", defs(SB[i][2]) + numbered(
                    std("id"), m, SB[i], d, tail=t))
    # extended
    for i in S:
        for j in D:
            m = "permit" if i <= j else "deny"
            yield conf(tier, "hosts %s, %s" % (i, j), "ios", defs(S[i][2], D[j][2]) + nlist(
                "extended", n, next_(n, m, *P("ip"), S[i], D[j])))
            yield conf(tier, "numbered hosts %s, %s" % (i, j), "ios", defs(S[i][2], D[j][2]) + numext(
                extn("ix"), m, *P("ip"), S[i], D[j]))
    for i in SP:
        for j in DP:
            yield conf(tier, "ports %s, %s" % (i, j), "ios", defs(SP[i][2], DP[j][2]) + nlist(
                "extended", n, next_(n, "permit", *P("tcp"), S["net"], D["host"], SP[i], DP[j])))
            yield conf(tier, "numbered ports %s, %s" % (i, j), "ios", defs(SP[i][2], DP[j][2]) + numext(
                extn("ix"), "permit", *P("udp"), S["host"], D["odd"], SP[i], DP[j]))
    for i in S:
        yield conf(tier, "src %s with ports" % i, "ios", defs(S[i][2]) + nlist("extended", n, next_(
            n, "deny", *P("udp"), S[i], D["any"], SP["eq"], DP["range"])))
        yield conf(tier, "dst %s with ports" % i, "ios", defs(D[i][2]) + nlist("extended", n, next_(
            n, "deny", *P("udp"), S["all"], D[i], SP["gt"], DP["neq"])))
    prot = {
        "number": ([byte("pn")], ("name", byte("pn")), None), "zero": (["0"], ("name", "0"), None),
        "service group": (["object-group SG"], ("group", "service", "SG"), Form((
            ["object-group service SG\n tcp destination eq ", port("sg"), " "],
            ("group", "service", "SG", None, (("tcp", None, ("eq", port("sg")), None, None),))))),
    }
    for k, (t, d, pre) in prot.items():
        for m in ("permit", "deny"):
            yield conf(tier, "protocol %s %s" % (k, m), "ios", defs(pre, S["group"][2]) + nlist(
                "extended", n, next_(n, m, t, d, S["group"], D["net"])))
            yield conf(tier, "numbered protocol %s %s" % (k, m), "ios", defs(pre, S["group"][2]) + numext(
                extn("ix"), m, t, d, S["group"], D["net"]))
    for k, (t, d, pre) in {
        "none": ([], None, None), "type": ([" echo-reply"], ("echo-reply", None), None),
        "number": ([" ", byte("it")], (byte("it"), None), None),
        "code": ([" unreachable ", byte("ic")], ("unreachable", byte("ic")), None),
        "numbers": ([" ", byte("it"), " ", byte("ic")], (byte("it"), byte("ic")), None),
        "group": ([" object-group IG"], ("group", "IG"), igroup("IG", "echo", "8")),
    }.items():
        for p in ("icmp", "icmp6"):
            for i, j in (("any", "any"), ("host", "net"), ("group", "odd")):
                for o in ("none", "log", "fragments", "time-range") if i != "group" else ("none",):
                    ot, od = EXT_OPTIONS[o]
                    yield conf(tier, "%s %s %s %s %s" % (p, k, i, j, o), "ios", defs(pre, S[i][2], D[j][2]) + nlist(
                        "extended", n, next_(n, "permit", *P(p), S[i], D[j], tail=t + ot, icmp=d, opts=od)))
                    yield conf(tier, "numbered %s %s %s %s %s" % (p, k, i, j, o), "ios", defs(pre, S[i][2], D[j][2]) + numext(
                        extn("ix"), "permit", *P(p), S[i], D[j], tail=t + ot, icmp=d, opts=od))
    for k, (t, d) in EXT_OPTIONS.items():
        for dp in ("none", "eq", "range", "names", "group"):
            yield conf(tier, "options %s after %s" % (k, dp), "ios", defs(DP[dp][2]) + nlist("extended", n, next_(
                n, "permit", *P("tcp"), S["any"], D["net"], dp=DP[dp], tail=t, opts=d)))
            yield conf(tier, "numbered options %s after %s" % (k, dp), "ios", defs(DP[dp][2]) + numext(
                extn("ix"), "permit", *P("tcp"), S["any"], D["net"], dp=DP[dp], tail=t, opts=d))
        for k2, (t2, d2) in EXT_OPTIONS.items():
            if k.split()[0] != k2.split()[0] and "none" not in (k, k2):
                yield conf(tier, "options %s, %s" % (k, k2), "ios", nlist("extended", n, next_(
                    n, "permit", *P("tcp"), S["host"], D["host"], tail=t + t2, opts=d + d2)))
    # remarks
    r1, r2 = text("r1"), text("r2")
    e = lambda rem=(), m="permit": next_(n, m, *P("ip"), S["net"], D["any"], remarks=rem)
    s = lambda rem=(), m="permit": nstd(n, m, S["net"], remarks=rem)
    R = lambda t: (["remark "] + t, None)
    for kind, x in (("extended", e), ("standard", s)):
        yield conf(tier, "remark " + kind, "ios", nlist(kind, n, R([r1]), x((r1,))))
        yield conf(tier, "remarks " + kind, "ios", nlist(kind, n, R([r1]), R([r2]), x((r1, r2))))
        yield conf(tier, "remark goes to the next " + kind, "ios", nlist(kind, n, x(), R([r1]), x((r1,), "deny"), x()))
        yield conf(tier, "remark with a number " + kind, "ios", nlist(kind, n, (["10 remark ", r1], None), x((r1,), "deny"), x()))
        yield conf(tier, "empty remark " + kind, "ios", nlist(kind, n, R([]), x(("",))))
        yield conf(tier, "keywords in remark " + kind, "ios", nlist(kind, n, R(["permit ip any any"]), x(("permit ip any any",))))
        yield conf(tier, "empty list " + kind, "ios", nlist(kind, n) + numbered(std("id"), "permit", S["any"]))
        t, d = x()
        yield conf(tier, "numbers " + kind, "ios", nlist(kind, n, (["10 "] + t, d), ([num("sq"), " "] + t, d), (t, d)))
        yield conf(tier, "two lists " + kind, "ios", nlist(kind, n, x(), x((), "deny")) + nlist(kind, n, x((), "deny"), R([r1]), x((r1,))))
    rem = lambda rid, t: L1(["access-list ", rid, " remark "] + list(t))
    r1, r2 = line("r1"), line("r2")
    for kind, rid, oid, x in (
            ("standard", "13", "1", lambda rid, rm=(), m="permit": numbered(rid, m, S["host"], remarks=rm)),
            ("extended", "113", "11", lambda rid, rm=(), m="permit": numext(rid, m, *P("ip"), S["host"], ANY, remarks=rm))):
        yield conf(tier, "numbered remark " + kind, "ios", rem(rid, [r1]) + x(rid, (r1,)))
        yield conf(tier, "numbered remarks " + kind, "ios", rem(rid, [r1]) + rem(rid, [r2]) + x(rid, (r1, r2)))
        yield conf(tier, "numbered remark of another list " + kind, "ios", rem(oid, [r1]) + rem(rid, [r2]) + x(rid, (r2,)))
        yield conf(tier, "numbered remark goes to the next %s only" % kind, "ios", x(rid) + rem(rid, [r1]) + x(rid, (r1,), "deny") + x(rid))
        yield conf(tier, "numbered empty remark " + kind, "ios", rem(rid, []) + x(rid, ("",)))
    # IPv6
    S6, D6 = hosts6("s"), hosts6("d")
    q = num("q")
    for i in S6:
        for j in D6:
            for m in ("permit", "deny"):
                yield conf(tier, "ipv6 hosts %s %s, %s" % (m, i, j), "ios", list6(n, (q,) + six(n, m, *P("ipv6"), S6[i], D6[j])))
            for sp in ("none", "eq", "range"):
                for dp in ("none", "gt", "name", "range", "names"):
                    yield conf(tier, "ipv6 ports %s %s, %s %s" % (i, sp, j, dp), "ios", list6(
                        n, (q,) + six(n, "permit", *P("tcp"), S6[i], D6[j], SP[sp], DP[dp])))
    for i in SP:
        for j in DP:
            if "group" not in (i, j):
                yield conf(tier, "ipv6 ports %s, %s" % (i, j), "ios", list6(
                    n, (q,) + six(n, "deny", *P("udp"), S6["net"], D6["host"], SP[i], DP[j])))
    for p in ("ip", "ipv6", "udp", "icmp", "ahp", "esp"):
        yield conf(tier, "ipv6 protocol " + p, "ios", list6(n, (q,) + six(n, "deny", *P(p), S6["any"], D6["net"])))
    yield conf(tier, "ipv6 protocol number", "ios", list6(n, (q,) + six(n, "deny", [byte("pn")], ("name", byte("pn")), S6["any"], D6["net"])))
    for k, (t, d) in IP6_OPTIONS.items():
        yield conf(tier, "ipv6 option " + k, "ios", list6(n, (q,) + six(n, "permit", *P("tcp"), S6["host"], D6["net"], tail=t, opts=d)))
        for k2, (t2, d2) in IP6_OPTIONS.items():
            if k != k2 and "none" not in (k, k2):
                yield conf(tier, "ipv6 options %s, %s" % (k, k2), "ios", list6(
                    n, (q,) + six(n, "permit", *P("tcp"), S6["host"], D6["net"], tail=t + t2, opts=d + d2)))
    for k in ("nd-ns", "nd-na", "router-solicitation", "router-advertisement", "redirect", "echo-request", "echo-reply", "packet-too-big"):
        yield conf(tier, "ipv6 icmp " + k, "ios", list6(n, (q,) + six(
            n, "permit", *P("icmp"), S6["any"], D6["net"], tail=[" " + k], opts=((k, None),))))
    yield conf(tier, "ipv6 entries", "ios", list6(
        n, (q,) + six(n, "permit", *P("tcp"), S6["host"], D6["net"]), (num("q2"),) + six(n, "deny", *P("udp"), S6["net"], D6["any"]),
        ("30",) + six(n, "permit", *P("icmp"), S6["any"], D6["any"], tail=[" nd-na"], opts=(("nd-na", None),))))
    # order across lists
    yield conf(tier, "order", "ios", numbered("5", "permit", S["host"]) + nlist("extended", n, e(), e((), "deny")) + numext(
        "105", "deny", *P("ip"), S["host"], ANY) + list6("SIX", (q,) + six("SIX", "permit", *P("tcp"), S6["host"], D6["net"]))
        + nlist("standard", "A", nstd("A", "permit", S["any"])) + numbered("5", "deny", S["any"]))
    yield conf(tier, "carriage returns", "ios", nlist("extended", n, e(), e((), "deny")) + numbered(std("id"), "permit", S["net"]), end="\n")
