"""Obligations over configuration texts: C06, C07, C11-C15, C18-C20, C22, C23, C25.

A form is a text (constant fragments and word classes) and the description of what it
stands for; the text goes through the parser and actions of /repo, the description
through the reference model.
"""
from sa import harness
from sa.core import *
from sa.dd import *
from sa.run import Case

CONFIG = ("acltk.aclObjects", "ACLConfig")
IDENT = ("ACLRule", "NATObject", "NetworkObject", "ServiceObject", "NetworkGroup", "ServiceGroup", "PortGroup",
         "ProtocolGroup", "ICMPGroup", "TimeRange", "Name", "Interface", "InterfaceAccessGroup", "Route")
IGNORE = (("ACLConfig", "timestamp"), ("iosConfig", "timestamp"))

NAMES = ("[A-Z][A-Z0-9]{1,6}_[A-Z]", "[a-z]{2,4}[-][a-z]{1,4}", "[A-Z][a-z]{1,3}_[0-9]{1,3}", "[0-9]{1,3}[.][a-z]{2,4}",
         "[a-z]{1,3}[0-9][.][a-z][-][0-9]", "any[a-z]{1,4}_[0-9]", "host[-_][a-z]{1,3}",
         "[_][a-z]{1,3}[.][_]", "[A-Z]{2}[-]", "[a-z]{1,3}[A-Z][A-Z0-9]{1,3}")
IP4 = ("25[0-5][.]2[0-4][0-9][.][1-9][0-9][.][0-9]", "1[0-9][0-9][.][0-9][.][1-9][0-9][.]2[0-4][0-9]",
       "[1-9][.][0-9][.][0-9][.]1[0-9][0-9]", "[1-9][0-9][.]25[0-5][.]1[0-9][0-9][.][1-9][0-9]",
       "[0-9][.][0-9][.][0-9][.][0-9]")
IP6 = ("2001:db8:[1-9a-f]{1,4}::[1-9a-f]{1,4}", "fe80::[1-9a-f]{2}", "[a-f][0-9]{3}:[0-9a-f]::", "FD00:[1-9]:[A-F]{2}::1")
PFX4 = ("[0-9]", "[12][0-9]", "3[0-2]")
PFX6 = ("[0-9]", "[1-9][0-9]", "1[01][0-9]", "12[0-8]")
PORTS = ("[1-9][0-9]{0,3}", "[0-9]", "[1-5][0-9]{4}", "6[0-4][0-9]{3}", "6553[0-5]")
LOW = ("[0-9]", "[1-9][0-9]", "[1-9][0-9]{2}")
HIGH = ("[2-9][0-9]{3}", "[1-5][0-9]{4}", "6553[0-5]")
BYTE = ("[0-9]", "[1-9][0-9]", "1[0-9][0-9]", "25[0-5]")
WORDS = ("[a-z]{2,8}", "[A-Za-z][A-Za-z0-9]{0,8}", "[A-Z][a-z]{2,6}[-.!/][a-z0-9]{1,5}")
LINES = ("[a-z]{2,8} [a-z]{1,4}", "[A-Za-z0-9][a-z]{0,3}[-.,:/_()][a-z ]{1,5}[a-z]", "[ ][a-z][A-Za-z]{0,8}")
URLS = ("https://[a-z]{1,8}[.][a-z]{2,3}/[a-z*]{1,4}", "ftp://[A-Z0-9]{1,8}")


def slot(p, shapes, **k):
    assert SYM.get(p, {}).get("shapes", tuple(shapes)) == tuple(shapes), p
    return sym(p, shapes=tuple(shapes), ty="str", truthy=True, **k)


def nm(p):
    return slot(p + ".nm", NAMES)


def ip4(p):
    return slot(p + ".ip4", IP4, ipok=True, fam=4)


def ip6(p):
    return slot(p + ".ip6", IP6, ipok=True, fam=6)


def pfx4(p):
    return slot(p + ".pfx4", PFX4, numeric=True, prefixok=True)


def pfx6(p):
    return slot(p + ".pfx6", PFX6, numeric=True, prefixok=True)


def port(p):
    return slot(p + ".port", PORTS, numeric=True)


def byte(p):
    return slot(p + ".byte", BYTE, numeric=True)


def low(p):
    return slot(p + ".low", LOW, numeric=True)


def high(p):
    return slot(p + ".high", HIGH, numeric=True)


def word(p):
    return slot(p + ".word", WORDS)


def line(p):
    return slot(p + ".line", LINES[:2])


def text(p):
    """may start with a blank"""
    return slot(p + ".text", LINES)


def ifname(p):
    return slot(p + ".if", NAMES[:3])


# ------------------------------------------------------------------ assembling
class Form:
    """lines of a text with their items"""

    def __init__(self, *pairs):
        self.lines = []
        self.items = []
        for l, i in pairs:
            self.lines.append(l)
            self.items.append(i)

    def __add__(self, o):
        f = Form()
        f.lines = self.lines + o.lines
        f.items = self.items + o.items
        return f


def L1(parts, item=("none",)):
    if isinstance(parts, str):
        parts = [parts]
    return Form((list(parts), item))


def parts_of(form, end="\n"):
    out = []
    for i, l in enumerate(form.lines):
        if i:
            out.append(end)
        out.extend(l)
    return out


VARIANTS = {"quick": (0, 1, 2), "thorough": tuple(range(7))}


def conf(tier, name, dialect, form, reject=False, end="\n", variants=None, head=True):
    head = {"asa": Form((["ASA Version 9.4(2)"], ("version", "ASA Version 9.4(2)"))),
            "ios": Form((["version 12.4"], ("version", " 12.4"))), "": Form()}[dialect if isinstance(dialect, str) and head else ""]
    f = head + form
    parts = parts_of(f, end)
    if reject:
        fn, args = "rejected", ()
    else:
        fn, args = dialect or "asa", (tuple(f.items),)

    def run(parts=parts, fn=fn, args=args):
        return harness.run_text(CONFIG, parts, "drv_text", fn, args, identity=IDENT, ignore=IGNORE,
                                variants=variants or VARIANTS[tier], name=name)
    return Case(name, "%s of a text" % fn, run=run, line=harness.show_text(parts))


def no(tier, name, dialect, *lines):
    """a text that must not be accepted"""
    f = Form()
    for l in lines:
        f = f + (l if isinstance(l, Form) else L1(l))
    return conf(tier, "rejects " + name, dialect, f, reject=True)


# ------------------------------------------------------------------ definitions to refer to
def obj(name, p):
    a = ip4(p)
    return Form((["object network ", name, "\n host ", a], ("nobj", name, None, ("host", a), None)))


def ngroup(name, p):
    a = ip4(p)
    return Form((["object-group network ", name, "\n network-object host ", a], ("group", "network", name, None, (("host", a),))))


def pgroup(name, p, proto="tcp"):
    return Form((["object-group service ", name, " ", proto, "\n port-object eq ", port(p)],
                 ("group", "port", name, None, (("eq", port(p)),), proto)))


def sgroup(name, p):
    return Form((["object-group service ", name, "\n service-object tcp destination eq ", port(p), " "],
                 ("group", "service", name, None, (("tcp", None, ("eq", port(p)), None, None),))))


def protogroup(name, *members):
    return Form((["object-group protocol ", name] + ["\n protocol-object " + m for m in members],
                 ("group", "protocol", name, None, tuple(("proto", m) for m in members))))


def igroup(name, *members):
    return Form((["object-group icmp-type ", name] + ["\n icmp-object " + m for m in members],
                 ("group", "icmp", name, None, tuple(("icmp", m) for m in members))))


def sobj(name, p, proto="tcp", side="destination"):
    pt = ("eq", port(p))
    if side == "destination":
        return Form((["object service ", name, "\n service ", proto, " destination eq ", port(p), " "],
                     ("sobj", name, None, (proto, None, pt, None, None))))
    return Form((["object service ", name, "\n service ", proto, " source eq ", port(p), "  "],
                 ("sobj", name, None, (proto, pt, None, None, None))))


def named(name, p):
    return Form((["name ", ip4(p), " ", name], ("name", name, ip4(p), None)))


def iface(alias, nameif):
    return Form((["interface ", alias, "\n nameif ", nameif], ("iface", alias, nameif, None, (), (), None)))


def timer(name):
    return Form((["time-range ", name, "\n absolute start 10:30 1 March 2020"],
                 ("time", name, (("absolute", ("1", "3", "2020", "10", "30"), None),))))


# ------------------------------------------------------------------ access list lines of ASA
def asa_hosts(p):
    """name -> (text, description, definitions)"""
    U = p.upper()
    a, b, m, h = ip4(p + "a"), ip6(p + "b"), pfx6(p + "m"), ip4(p + "h")
    return {
        "host": (["host ", h], ("host", h), None),
        "host6": (["host ", b], ("host", b), None),
        "ip": (["ip ", h], ("host", h), None),
        "named host": (["host " + U + "HOST"], ("named", U + "HOST"), named(U + "HOST", p + "nh")),
        "interface": (["interface ", ifname(p + "i")], ("iface", ifname(p + "i")), None),
        "any": (["any"], ("any",), None), "any4": (["any4"], ("any4",), None), "any6": (["any6"], ("any6",), None),
        "object": (["object " + U + "OBJ"], ("object", U + "OBJ"), obj(U + "OBJ", p + "o")),
        "group": (["object-group " + U + "GRP"], ("group", U + "GRP"), ngroup(U + "GRP", p + "g")),
        "network": ([a, " 255.255.255.0"], ("net", a, "255.255.255.0"), None),
        "network6": ([b, "/", m], ("net", b, m), None),
        "named network": ([U + "NET 255.255.0.0"], ("namednet", U + "NET", "255.255.0.0"), named(U + "NET", p + "nn")),
        "named prefix": ([U + "PFX/28"], ("namednet", U + "PFX", "28"), named(U + "PFX", p + "np")),
    }


def asa_ports(p):
    return {
        "none": ([], None, None),
        "eq": ([" eq ", port(p + "e")], ("eq", port(p + "e")), None),
        "neq": ([" neq ", port(p + "n")], ("neq", port(p + "n")), None),
        "gt": ([" gt ", port(p + "t")], ("gt", port(p + "t")), None),
        "lt": ([" lt ", port(p + "l")], ("lt", port(p + "l")), None),
        "name": ([" eq www"], ("eq", "www"), None),
        "range": ([" range ", low(p + "x"), " ", high(p + "y")], ("range", low(p + "x"), high(p + "y")), None),
        "names": ([" range ftp-data telnet"], ("range", "ftp-data", "telnet"), None),
        "group": ([" object-group " + p.upper() + "PG"], ("group", p.upper() + "PG"), pgroup(p.upper() + "PG", p + "pg")),
    }


def defs(*fs):
    r = Form()
    for f in fs:
        if f is not None:
            r = r + f
    return r


def ace(rid, mode, proto, src, sport, dst, dport, icmp=None, opts=(), remarks=(), typ="extended"):
    return ("rule", rid, typ, mode, proto, src, sport, dst, dport, icmp, tuple(opts), tuple(remarks))


def ext(rid, mode, ptext, proto, s, d, sp=([], None), dp=([], None), tail=(), icmp=None, opts=(), remarks=(), pre=None):
    """an extended line; s, d: (text, description, ...)"""
    t = ["access-list ", rid, " extended ", mode, " "] + list(ptext) + [" "] + s[0] + sp[0] + [" "] + d[0] + dp[0] + list(tail)
    return Form((t, ace(rid, mode, proto, s[1], sp[1], d[1], dp[1], icmp, opts, remarks)))


def P(name):
    return [name], ("name", name)


ANY = (["any"], ("any",), None)

ASA_OPTIONS = {
    "none": ([], ()),
    "log": ([" log"], (("log!", ()),)),
    "log level": ([" log warnings"], (("log!", ("warnings",)),)),
    "inactive": ([" inactive"], (("inactive!",),)),
    "time": ([" time-range TR"], (("time!", "TR"),)),
    "log inactive": ([" log inactive"], (("log!", (None,)), ("inactive!",))),
    "time inactive": ([" time-range TR inactive"], (("time!", "TR"), ("inactive!",))),
    "inactive log": ([" inactive log"], (("inactive!",), ("log!", ()))),
    "log time": ([" log disable time-range TR"], (("log!", ("disable",)), ("time!", "TR"))),
}


def c11(tier):
    S, D = asa_hosts("s"), asa_hosts("d")
    for i in S:
        for j in D:
            yield conf(tier, "hosts %s, %s" % (i, j), "asa", defs(S[i][2], D[j][2]) + ext(
                nm("acl"), "permit", *P("ip"), S[i], D[j]))
    SP, DP = asa_ports("s"), asa_ports("d")
    for i in SP:
        for j in DP:
            yield conf(tier, "ports %s, %s" % (i, j), "asa", defs(SP[i][2], DP[j][2]) + ext(
                nm("acl"), "permit", *P("tcp"), S["network"], D["host"], SP[i], DP[j]))
    for i in S:
        yield conf(tier, "src %s with ports" % i, "asa", defs(S[i][2]) + ext(
            nm("acl"), "deny", *P("udp"), S[i], D["any"], SP["eq"], DP["range"]))
        yield conf(tier, "dst %s with ports" % i, "asa", defs(D[i][2]) + ext(
            nm("acl"), "deny", *P("udp"), S["any4"], D[i], SP["gt"], DP["neq"]))
    prot = {
        "number": ([byte("pn")], ("name", byte("pn")), None), "zero": (["0"], ("name", "0"), None),
        "object": (["object SO"], ("object", "SO"), sobj("SO", "so")),
        "service group": (["object-group SG"], ("group", "service", "SG"), sgroup("SG", "sg")),
        "protocol group": (["object-group PRG"], ("group", "protocol", "PRG"), protogroup("PRG", "tcp", "udp")),
    }
    for n, (t, d, pre) in prot.items():
        for m in ("permit", "deny"):
            yield conf(tier, "protocol %s %s" % (n, m), "asa", defs(pre, S["object"][2]) + ext(
                nm("acl"), m, t, d, S["object"], D["network"]))
    for p in ("icmp", "icmp6"):
        for n, (t, d, pre) in {
            "none": ([], None, None), "type": ([" echo-reply"], ("echo-reply", None), None),
            "number": ([" ", byte("it")], (byte("it"), None), None),
            "code": ([" unreachable ", byte("ic")], ("unreachable", byte("ic")), None),
            "numbers": ([" ", byte("it"), " ", byte("ic")], (byte("it"), byte("ic")), None),
            "group": ([" object-group IG"], ("group", "IG"), igroup("IG", "echo", "8")),
        }.items():
            for i, j in (("any", "any"), ("host", "network"), ("object", "group"), ("any6", "host6")):
                for o in ("none", "log level") if i == "host" else ("none",):
                    ot, od = ASA_OPTIONS[o]
                    yield conf(tier, "%s %s %s %s %s" % (p, n, i, j, o), "asa", defs(pre, S[i][2], D[j][2]) + ext(
                        nm("acl"), "permit", *P(p), S[i], D[j], tail=t + ot, icmp=d, opts=od))
    for n, (t, d) in ASA_OPTIONS.items():
        for dp in ("none", "eq", "range", "group"):
            yield conf(tier, "options %s after %s" % (n, dp), "asa", defs(timer("TR"), DP[dp][2]) + ext(
                nm("acl"), "permit", *P("tcp"), S["any"], D["network"], dp=DP[dp], tail=t, opts=d))
    for t, d in (("debugging", "debugging"), ("disable", "disable"), ("default", "default"), ("notifications", "notifications"),
                 ("warnings", "warnings"), ("critical", "critical"), ("0", "0"), ("7", "7"),
                 ("interval 300", ("interval", None, "300"))):
        yield conf(tier, "log %s" % t, "asa", ext(nm("acl"), "permit", *P("ip"), ANY, ANY, tail=[" log " + t],
                                                  opts=(("log!", (d,)),)))
    yield conf(tier, "log level and interval", "asa", ext(
        nm("acl"), "permit", *P("ip"), ANY, ANY, tail=[" log 6 interval 600"],
        opts=(("log!", ("6", ("interval", None, "600"))),)))
    yield conf(tier, "trailing blank", "asa", ext(nm("acl"), "permit", *P("ip"), S["host"], D["host"], tail=[" "]))
    yield conf(tier, "trailing blank after options", "asa", ext(
        nm("acl"), "permit", *P("ip"), S["host"], D["host"], tail=[" log "], opts=(("log!", (None,)),)))
    yield conf(tier, "carriage returns", "", ext(nm("acl"), "permit", *P("ip"), S["host"], D["host"]) + ext(
        "SECOND", "deny", *P("ip"), ANY, ANY), end="\r\n")
    yield conf(tier, "tabs", "asa", Form((
        ["access-list\t", nm("acl"), "\textended  permit\ttcp  host ", ip4("h1"), "\t any   eq  ", port("p1")],
        ace(nm("acl"), "permit", ("name", "tcp"), ("host", ip4("h1")), None, ("any",), ("eq", port("p1"))))))
    # remarks
    A = "LIST"
    rule = lambda rid, rem: ext(rid, "permit", *P("ip"), S["host"], ANY, remarks=rem)
    rem = lambda rid, t: L1(["access-list ", rid, " remark "] + list(t))
    yield conf(tier, "remark", "asa", rem(A, [text("r1")]) + rule(A, (text("r1"),)))
    yield conf(tier, "remarks", "asa", rem(A, [text("r1")]) + rem(A, [text("r2")]) + rule(A, (text("r1"), text("r2"))))
    yield conf(tier, "remark of another list", "asa", rem("OTHER", [text("r1")]) + rem(A, [text("r2")]) + rule(A, (text("r2"),)))
    yield conf(tier, "only remark of another list", "asa", rem("OTHER", [text("r1")]) + rule(A, ()))
    yield conf(tier, "remark of a longer list name", "asa", rem("LIST2", [text("r1")]) + rem(A, [text("r2")]) + rule(A, (text("r2"),)))
    yield conf(tier, "remark of other letter case", "asa", rem("list", [text("r1")]) + rule(A, ()))
    yield conf(tier, "remark goes to the next rule only", "asa", rule(A, ()) + rem(A, [text("r1")]) + ext(
        A, "deny", *P("ip"), ANY, ANY, remarks=(text("r1"),)) + rule(A, ()))
    yield conf(tier, "empty remark", "asa", rem(A, []) + rule(A, ("",)))
    yield conf(tier, "remark before end", "asa", rule(A, ()) + rem(A, [text("r1")]) + L1("names"))
    yield conf(tier, "keywords in remark", "asa", rem(A, ["access-list LIST extended permit ip any any"]) + rule(
        A, ("access-list LIST extended permit ip any any",)))
    for t in ("standard", "webtype", "ethertype"):
        pass
    # standard
    for i in S:
        for m in ("permit", "deny"):
            yield conf(tier, "standard %s %s" % (m, i), "asa", defs(S[i][2]) + Form((
                ["access-list ", nm("acl"), " standard ", m, " "] + S[i][0],
                ace(nm("acl"), m, ("name", "ip"), S[i][1], None, ("any",), None, typ="standard"))))
    yield conf(tier, "standard with remark", "asa", rem(A, [text("r1")]) + Form((
        ["access-list ", A, " standard permit host ", ip4("h")],
        ace(A, "permit", ("name", "ip"), ("host", ip4("h")), None, ("any",), None, remarks=(text("r1"),), typ="standard"))))
    # webtype
    url = slot("u", URLS)
    for m in ("permit", "deny"):
        for n, (t, d) in ASA_OPTIONS.items():
            yield conf(tier, "webtype url %s %s" % (m, n), "asa", timer("TR") + Form((
                ["access-list ", nm("acl"), " webtype ", m, " url ", url] + t,
                ace(nm("acl"), m, ("name", "url"), ("any",), None, ("url", url), None, opts=d, typ="webtype"))))
        for i in D:
            yield conf(tier, "webtype tcp %s %s" % (m, i), "asa", defs(D[i][2]) + Form((
                ["access-list ", nm("acl"), " webtype ", m, " tcp "] + D[i][0] + [" eq ", port("wp")],
                ace(nm("acl"), m, ("name", "tcp"), ("any",), None, D[i][1], ("eq", port("wp")), typ="webtype"))))
    for j in DP:
        yield conf(tier, "webtype tcp port %s" % j, "asa", defs(DP[j][2]) + Form((
            ["access-list ", nm("acl"), " webtype permit tcp "] + D["network"][0] + DP[j][0] + [" log"],
            ace(nm("acl"), "permit", ("name", "tcp"), ("any",), None, D["network"][1], DP[j][1], opts=(("log!", ()),), typ="webtype"))))
    yield conf(tier, "webtype any url", "asa", Form((
        ["access-list ", nm("acl"), " webtype permit url any"],
        ace(nm("acl"), "permit", ("name", "url"), ("any",), None, ("url", "any"), None, typ="webtype"))))
    yield conf(tier, "webtype with remark", "asa", rem(A, [text("r1")]) + Form((
        ["access-list ", A, " webtype permit url ", url],
        ace(A, "permit", ("name", "url"), ("any",), None, ("url", url), None, remarks=(text("r1"),), typ="webtype"))))
    # ethertype
    for k in ("permit ipx", "deny bpdu", "permit 0x800", "permit any"):
        yield conf(tier, "ethertype %s" % k, "asa", rule(A, ()) + L1(["access-list ", nm("acl"), " ethertype " + k]) + rule(A, ()))
    yield conf(tier, "ethertype with remark", "asa", rem(A, [text("r1")]) + L1("access-list LIST ethertype permit ipx") + rule(A, ()))
    # several
    yield conf(tier, "order", "asa", rule("B", ()) + rule("A", ()) + rule("C", ()) + Form((
        ["access-list A standard deny any"], ace("A", "deny", ("name", "ip"), ("any",), None, ("any",), None, typ="standard")))
        + rule("B", ()))
    yield conf(tier, "without a version", "", rule("A", ()))


# ------------------------------------------------------------------ objects and groups
def svc_ends(p):
    """source or destination of a service: name -> (text, description)"""
    return {
        "none": ([], None), "eq": ([" eq ", port(p + "e")], ("eq", port(p + "e"))), "neq": ([" neq ", port(p + "n")], ("neq", port(p + "n"))),
        "gt": ([" gt ", port(p + "g")], ("gt", port(p + "g"))), "lt": ([" lt ", port(p + "l")], ("lt", port(p + "l"))),
        "name": ([" eq www"], ("eq", "www")), "range": ([" range ", low(p + "x"), " ", high(p + "y")], ("range", low(p + "x"), high(p + "y"))),
    }


def services(p):
    """what follows "service " / "service-object ": name -> (text, fields)"""
    r = {}
    for pr in ("icmp", "icmp6"):
        r[pr] = ([pr], (pr, None, None, None, None))
        r[pr + " type"] = ([pr + " echo"], (pr, None, None, "echo", None))
        r[pr + " number"] = ([pr + " ", byte(p + "it")], (pr, None, None, byte(p + "it"), None))
        r[pr + " code"] = ([pr + " unreachable ", byte(p + "ic")], (pr, None, None, "unreachable", byte(p + "ic")))
        r[pr + " zero"] = ([pr + " 0 0"], (pr, None, None, "0", "0"))
    S, D = svc_ends(p + "s"), svc_ends(p + "d")
    for i in S:
        for j in D:
            for pr in ("tcp", "udp", "tcp-udp") if i in ("none", "eq") and j in ("none", "range") else ("tcp",) if i < j else ("udp",):
                t = [pr] + ([" source"] + S[i][0] if S[i][0] else []) + ([" destination"] + D[j][0] if D[j][0] else [])
                r["%s %s-%s" % (pr, i, j)] = (t, (pr, S[i][1], D[j][1], None, None))
    r["protocol number"] = ([byte(p + "pn")], (byte(p + "pn"), None, None, None, None))
    return r


def network_members(p):
    U = p.upper()
    a, b, h = ip4(p + "a"), ip6(p + "b"), ip4(p + "h")
    return {
        "host": (["network-object host ", h], ("host", h), None),
        "host6": (["network-object host ", b], ("host", b), None),
        "named host": (["network-object host " + U + "NM"], ("named", U + "NM"), named(U + "NM", p + "nm")),
        "object": (["network-object object " + U + "OB"], ("object", U + "OB"), obj(U + "OB", p + "ob")),
        "network": (["network-object ", a, " 255.255.240.0"], ("net", a, "255.255.240.0"), None),
        "network6": (["network-object ", b, "/", pfx6(p + "x")], ("net", b, pfx6(p + "x")), None),
        "named network": (["network-object " + U + "NN 255.0.0.0"], ("namednet", U + "NN", "255.0.0.0"), named(U + "NN", p + "nn")),
        "named prefix": (["network-object " + U + "NP/12"], ("namednet", U + "NP", "12"), named(U + "NP", p + "np")),
        "group": (["group-object " + U + "GR"], ("sub", U + "GR"), ngroup(U + "GR", p + "gr")),
    }


def service_members(p):
    r = {n: (["service-object "] + t, d, None) for n, (t, d) in services(p).items()}
    for c in ("ip", "gre", "esp", "ospf"):
        r["protocol " + c] = (["service-object " + c], (c, None, None, None, None), None)
    r["object"] = (["service-object object " + p.upper() + "SO"], ("object", p.upper() + "SO"), sobj(p.upper() + "SO", p + "so"))
    r["group"] = (["group-object " + p.upper() + "SG"], ("sub", p.upper() + "SG"), sgroup(p.upper() + "SG", p + "sg"))
    return r


def port_members(p):
    return {
        "eq": (["port-object eq ", port(p + "e")], ("eq", port(p + "e")), None),
        "name": (["port-object eq https"], ("eq", "https"), None),
        "range": (["port-object range ", low(p + "l"), " ", high(p + "h")], ("range", low(p + "l"), high(p + "h")), None),
        "names": (["port-object range ftp-data ftp"], ("range", "ftp-data", "ftp"), None),
        "group": (["group-object " + p.upper() + "PG"], ("sub", p.upper() + "PG"), pgroup(p.upper() + "PG", p + "pg")),
    }


def icmp_members(p):
    return {
        "name": (["icmp-object echo-reply"], ("icmp", "echo-reply"), None),
        "number": (["icmp-object ", byte(p + "i")], ("icmp", byte(p + "i")), None),
        "zero": (["icmp-object 0"], ("icmp", "0"), None),
        "group": (["group-object " + p.upper() + "IG"], ("sub", p.upper() + "IG"), igroup(p.upper() + "IG", "redirect")),
    }


def protocol_members(p):
    return {
        "name": (["protocol-object tcp"], ("proto", "tcp"), None),
        "any name": (["protocol-object ", nm(p + "n")], ("proto", nm(p + "n")), None),
        "number": (["protocol-object ", byte(p + "b")], ("proto", byte(p + "b")), None),
        "group": (["group-object " + p.upper() + "PRG"], ("sub", p.upper() + "PRG"), protogroup(p.upper() + "PRG", "esp")),
    }


def a_group(head, kind, name, desc, members, extra=()):
    t = ["object-group ", head[0], name] + list(head[1:])
    if desc is not None:
        t += ["\n description ", desc]
    for m in members:
        t += ["\n "] + m[0]
    return defs(*[m[2] for m in members]) + Form((t, ("group", kind, name, desc, tuple(m[1] for m in members)) + tuple(extra)))


def group_forms(tier):
    for pr in ("tcp", "udp", "tcp-udp"):
        yield "port " + pr, ["service ", " " + pr], "port", port_members, (pr,)
    yield "network", ["network "], "network", network_members, ()
    yield "service", ["service "], "service", service_members, ()
    yield "icmp", ["icmp-type "], "icmp", icmp_members, ()
    yield "protocol", ["protocol "], "protocol", protocol_members, ()


def c12(tier):
    # network objects
    a, b, c6, d6 = ip4("a"), ip4("b"), ip6("c"), ip6("d")
    fq = slot("fq", ("www[.][a-z]{1,8}[.]com", "[a-u0-9][a-z0-9]{0,2}[-][a-z]{2,3}[.]example"))
    addr = {
        "host": (["host ", a], ("host", a)), "host6": (["host ", c6], ("host", c6)),
        "subnet": (["subnet ", a, " 255.255.0.0"], ("subnet", a, "255.255.0.0")),
        "subnet 32": (["subnet ", a, " 255.255.255.255"], ("subnet", a, "255.255.255.255")),
        "subnet 0": (["subnet 0.0.0.0 0.0.0.0"], ("subnet", "0.0.0.0", "0.0.0.0")),
        "subnet6": (["subnet ", c6, "/", pfx6("m")], ("subnet", c6, pfx6("m"))),
        "range": (["range ", a, " ", b], ("range", a, b)), "range6": (["range ", c6, " ", d6], ("range", c6, d6)),
        "range const": (["range 10.0.0.5 10.0.0.9"], ("range", "10.0.0.5", "10.0.0.9")),
        "range one": (["range 10.0.0.5 10.0.0.5"], ("range", "10.0.0.5", "10.0.0.5")),
        "range aligned": (["range 10.0.0.0 10.0.1.255"], ("range", "10.0.0.0", "10.0.1.255")),
        "range6 const": (["range 2001:db8::3 2001:db8::1:0"], ("range", "2001:db8::3", "2001:db8::1:0")),
        "fqdn": (["fqdn ", fq], ("fqdn", fq, None)),
        "fqdn v4": (["fqdn v4 ", fq], ("fqdn", fq, "v4")), "fqdn v6": (["fqdn v6 ", fq], ("fqdn", fq, "v6")),
    }
    use = lambda: ext("USE", "permit", *P("ip"), (["object ", "THE-OBJ"], ("object", "THE-OBJ")), ANY)
    for n, (t, d) in addr.items():
        yield conf(tier, "object %s" % n, "asa", Form((["object network ", nm("o"), "\n "] + t, ("nobj", nm("o"), None, d, None))))
        yield conf(tier, "object %s with description" % n, "asa", Form((
            ["object network THE-OBJ\n "] + t + ["\n description ", line("ds")],
            ("nobj", "THE-OBJ", line("ds"), d, None))) + use())
    yield conf(tier, "object without address", "asa", Form((["object network ", nm("o"), "\n"], ("nobj", nm("o"), None, None, None))))
    yield conf(tier, "objects in a row", "asa", defs(*[Form((
        ["object network O%d\n " % i] + t, ("nobj", "O%d" % i, None, d, None))) for i, (t, d) in enumerate(addr.values())]))
    yield conf(tier, "object seen twice", "asa", obj("SAME", "o1") + obj("SAME", "o2") + ext(
        "USE", "permit", *P("ip"), (["object SAME"], ("object", "SAME")), ANY))
    # service objects
    for n, (t, d) in services("v").items():
        yield conf(tier, "service object %s" % n, "asa", Form((
            ["object service ", nm("so"), "\n service "] + t, ("sobj", nm("so"), None, d))))
    for n in ("icmp type", "tcp eq-none", "udp none-range", "protocol number"):
        t, d = services("v")[n]
        yield conf(tier, "service object %s with description" % n, "asa", Form((
            ["object service SVC\n service "] + t + ["\n description ", line("ds")], ("sobj", "SVC", line("ds"), d))) + ext(
            "USE", "permit", ["object SVC"], ("object", "SVC"), ANY, ANY))
        yield conf(tier, "service object %s with blank" % n, "asa", Form((
            ["object service SVC\n service "] + t + ["" if n in ("icmp type", "protocol number") else " "], ("sobj", "SVC", None, d))))
    # groups
    for n, head, kind, members, extra in group_forms(tier):
        m1, m2 = members("m"), members("k")
        yield conf(tier, "%s group empty" % n, "asa", a_group(head, kind, nm("g"), None, [], extra))
        yield conf(tier, "%s group description only" % n, "asa", a_group(head, kind, nm("g"), line("ds"), [], extra))
        for i, x in m1.items():
            yield conf(tier, "%s group of %s" % (n, i), "asa", a_group(head, kind, nm("g"), None, [x], extra))
            if len(m1) < 12 or i in ("object", "group", "icmp code", "udp range-eq", "tcp eq-range"):
                for j, y in m2.items():
                    if len(m2) < 12 or j in ("object", "group", "icmp6 type", "tcp none-eq", "protocol ip", "protocol number"):
                        yield conf(tier, "%s group of %s, %s" % (n, i, j), "asa", a_group(head, kind, nm("g"), line("ds"), [x, y], extra))
        few = list(m1.items()) if len(m1) < 12 else [(i, m1[i]) for i in list(m1)[::5]]
        yield conf(tier, "%s group of everything" % n, "asa", a_group(head, kind, nm("g"), None, [x for i, x in few], extra))
        yield conf(tier, "%s group of everything backwards" % n, "asa", a_group(
            head, kind, nm("g"), line("ds"), [x for i, x in few[::-1]], extra))
        yield conf(tier, "%s groups in a row" % n, "asa", a_group(head, kind, "G1", None, [few[0][1]], extra) + a_group(
            head, kind, "G2", line("ds"), [few[-1][1]], extra) + a_group(head, kind, "G3", None, [], extra))
    # nested three deep
    yield conf(tier, "groups in groups", "asa", ngroup("A", "x") + Form(
        (["object-group network B\n group-object A"], ("group", "network", "B", None, (("sub", "A"),))),
        (["object-group network C\n network-object host ", a, "\n group-object B\n group-object A"],
         ("group", "network", "C", None, (("host", a), ("sub", "B"), ("sub", "A"))))))
    # IOS
    m = network_members("m")
    iosn = {
        "host": (["host ", ip4("h")], ("host", ip4("h")), None), "host6": (["host ", ip6("h")], ("host", ip6("h")), None),
        "network": ([ip4("n"), " 255.255.240.0"], ("net", ip4("n"), "255.255.240.0"), None),
        "network6": ([ip6("n"), "/", pfx6("x")], ("net", ip6("n"), pfx6("x")), None),
        "group": (["group-object SUB"], ("sub", "SUB"), Form((
            ["object-group network SUB\n host ", ip4("s")], ("group", "network", "SUB", None, (("host", ip4("s")),))))),
    }
    for i, x in iosn.items():
        yield conf(tier, "ios network group of %s" % i, "ios", a_group(["network "], "network", nm("g"), None, [x]))
        for j, y in iosn.items():
            if i != j:
                yield conf(tier, "ios network group of %s, %s" % (i, j), "ios", a_group(["network "], "network", nm("g"), line("ds"), [x, y]))
    ioss = {n: (t, d, None) for n, (t, d) in services("v").items()}
    for c in ("ip", "gre", "esp"):
        ioss["protocol " + c] = ([c], (c, None, None, None, None), None)
    ioss["group"] = (["group-object SSUB"], ("sub", "SSUB"), Form((
        ["object-group service SSUB\n tcp destination eq ", port("q")], ("group", "service", "SSUB", None, (("tcp", None, ("eq", port("q")), None, None),)))))
    for i, x in ioss.items():
        yield conf(tier, "ios service group of %s" % i, "ios", a_group(["service "], "service", nm("g"), None, [x]))
    some = [ioss[i] for i in ("icmp code", "tcp eq-none", "protocol ip", "group", "udp none-range")if i in ioss]
    yield conf(tier, "ios service group of several", "ios", a_group(["service "], "service", nm("g"), line("ds"), some))
    for n, head, kind, members, extra in group_forms(tier):
        if kind in ("icmp", "protocol", "port"):
            ms = list(members("m").values())
            yield conf(tier, "ios %s group" % n, "ios", a_group(head, kind, nm("g"), line("ds"), ms, extra))


# ------------------------------------------------------------------ NAT
def nat_defs():
    return defs(iface("eth0", "inside"), iface("eth1", "outside"), obj("REAL", "r"), obj("MAP", "m"), obj("DREAL", "dr"),
                obj("DMAP", "dm"), ngroup("GREAL", "gr"), ngroup("GMAP", "gm"))


IFS = {
    "names": (["(inside,outside)"], "inside", "outside"), "swapped": (["(outside,inside)"], "outside", "inside"),
    "any": (["(any,outside)"], "any", "outside"), "to any": (["(inside,any)"], "inside", "any"),
    "anys": (["(any,any)"], "any", "any"), "aliases": (["(eth1,eth0)"], "eth1", "eth0"),
}
NAT_OPTIONS = ["net-to-net", "dns", "unidirectional", "no-proxy-arp", "inactive", "route-lookup"]


def c13(tier):
    mapped_auto = {
        "object": ([" MAP"], ("object", "MAP"), None), "group": ([" GMAP"], ("group", "GMAP"), None),
        "address": ([" ", ip4("ma")], ("host", ip4("ma")), None), "address6": ([" ", ip6("mb")], ("host", ip6("mb")), None),
        "prefix6": ([" ", ip6("mb"), "/", pfx6("mp")], ("net", ip6("mb"), pfx6("mp")), None),
        "interface": ([" interface"], ("interface",), None),
        "interface6": ([" interface ipv6"], ("interface",), None),
        "pool": ([" pat-pool MAP"], ("object", "MAP"), None), "pool group": ([" pat-pool GMAP"], ("group", "GMAP"), None),
        "pool options": ([" pat-pool MAP round-robin extended flat include-reserve"], ("object", "MAP"), None),
    }
    for n in ("object", "group", "address", "address6", "prefix6", "pool"):
        t, d, _ = mapped_auto[n]
        mapped_auto[n + " fallback"] = (t + [" interface"], d, ("no",))
        mapped_auto[n + " fallback6"] = (t + [" interface ipv6"], d, ("ipv6",))

    def auto(ifs, kind, m, svc=None, opts=(), addr=(["host ", ip4("o")], ("host", ip4("o"))), desc=None, name="AUTO", later=False):
        it, ri, mi = IFS[ifs]
        t, d, fb = mapped_auto[m]
        fb = fb and (None if fb[0] == "no" else "ipv6",)
        nt = ["nat "] + it + [" ", kind] + t
        if svc is not None:
            nt += [" service ", svc[0], " "] + svc[1][0] + [" "] + svc[2][0]
            svc = (svc[0], svc[1][1], svc[2][1])
        nt += [" " + o for o in opts]
        nd = (ri, mi, kind, d, fb, svc, tuple(opts))
        if later:
            return Form((["object network ", name, "\n "] + addr[0], ("nobj", name, None, addr[1], None)),
                        (["object network ", name, "\n "] + nt, ("nobj", name, None, ("nat",), nd)))
        if addr is None:
            return Form((["object network ", name, "\n "] + nt, ("nobj", name, None, ("nat",), nd)))
        return Form((["object network ", name, "\n "] + addr[0] + ["\n "] + nt + (["\n description ", desc] if desc is not None else []),
                     ("nobj", name, desc, addr[1], nd)))

    pn = lambda p: ([port(p)], port(p))
    for kind in ("dynamic", "static"):
        for m in mapped_auto:
            for later in (False, True):
                yield conf(tier, "object nat %s %s%s" % (kind, m, " later" if later else ""), "asa", nat_defs() + auto("names", kind, m, later=later))
        for i in IFS:
            for m in ("object", "interface", "object fallback"):
                yield conf(tier, "object nat %s on %s to %s" % (kind, i, m), "asa", nat_defs() + auto(i, kind, m, later=m == "object"))
        for o in (("dns",), ("no-proxy-arp",), ("route-lookup",), ("no-proxy-arp", "route-lookup"), ("dns", "no-proxy-arp")):
            for m in ("object", "interface", "address"):
                yield conf(tier, "object nat %s %s %s" % (kind, m, " ".join(o)), "asa", nat_defs() + auto("names", kind, m, opts=o))
    for pr in ("tcp", "udp"):
        for m in ("object", "address", "interface"):
            yield conf(tier, "object nat service %s %s" % (pr, m), "asa", nat_defs() + auto(
                "names", "static", m, (pr, pn("rp"), pn("mp"))))
            yield conf(tier, "object nat service names %s %s" % (pr, m), "asa", nat_defs() + auto(
                "names", "static", m, (pr, (["www"], "www"), (["8080"], "8080")), opts=("no-proxy-arp",), later=True))
    yield conf(tier, "object nat with description", "asa", nat_defs() + auto("names", "static", "address", desc=line("ds")))
    yield conf(tier, "object nat of a subnet", "asa", nat_defs() + auto(
        "names", "dynamic", "interface", addr=(["subnet ", ip4("o"), " 255.255.0.0"], ("subnet", ip4("o"), "255.255.0.0"))))
    yield conf(tier, "object nats in order", "asa", nat_defs() + auto("names", "dynamic", "interface", name="X1") + auto(
        "swapped", "static", "object", name="X2") + obj("PLAIN", "p") + auto("any", "static", "address", name="X3", later=True) + ext(
        "USE", "permit", *P("ip"), (["object X2"], ("object", "X2")), (["object X3"], ("object", "X3"))))
    yield conf(tier, "object nat later than others", "asa", nat_defs() + Form(
        (["object network X1\n host ", ip4("x1")], ("nobj", "X1", None, ("host", ip4("x1")), None)),
        (["object network X2\n host ", ip4("x2")], ("nobj", "X2", None, ("host", ip4("x2")), None)),
        (["object network X2\n nat (inside,outside) static MAP"],
         ("nobj", "X2", None, ("nat",), ("inside", "outside", "static", ("object", "MAP"), None, None, ()))),
        (["object network X1\n nat (outside,inside) dynamic GMAP"],
         ("nobj", "X1", None, ("nat",), ("outside", "inside", "dynamic", ("group", "GMAP"), None, None, ())))))

    # stand-alone statements
    def twice(ifs, kind, real, m, dst=None, svc=None, opts=(), pos="", desc=None, tail=""):
        it, ri, mi = IFS[ifs]
        t = ["nat "] + it + [pos, " source ", kind, " "] + real[0] + m[0]
        dd = None
        if dst is not None:
            t += [" destination static"] + dst[0][0] + dst[1][0]
            dd = (dst[0][1], dst[1][1])
        ss = None
        if svc is not None:
            t += [" service ", svc[0], " ", svc[1]]
            ss = svc[2]
        t += [" " + o for o in opts]
        if desc is not None:
            t += [" description ", desc]
        t += [tail]
        o = tuple(opts) + (("after-auto",) if pos else ())
        return Form((t, ("nat", ri, mi, kind, real[1], m[1], m[2] and (None if m[2][0] == "no" else "ipv6",), dd, ss, desc, o)))

    reals = {"object": (["REAL"], ("object", "REAL")), "group": (["GREAL"], ("group", "GREAL")), "any": (["any"], ("any",))}
    dyn = {
        "object": ([" MAP"], ("object", "MAP"), None), "group": ([" GMAP"], ("group", "GMAP"), None),
        "object fallback": ([" MAP interface"], ("object", "MAP"), ("no",)),
        "group fallback": ([" GMAP interface"], ("group", "GMAP"), ("no",)),
        "object fallback6": ([" MAP interface ipv6"], ("object", "MAP"), ("6",)),
        "interface": ([" interface"], ("interface",), None), "interface6": ([" interface ipv6"], ("interface",), None),
        "pool": ([" pat-pool MAP"], ("object", "MAP"), None), "pool group": ([" pat-pool GMAP"], ("group", "GMAP"), None),
        "pool options": ([" pat-pool MAP round-robin extended flat include-reserve"], ("object", "MAP"), None),
        "pool fallback": ([" pat-pool MAP interface"], ("object", "MAP"), ("no",)),
    }
    stat = {
        "object": ([" MAP"], ("object", "MAP"), None), "group": ([" GMAP"], ("group", "GMAP"), None),
        "interface": ([" interface"], ("interface",), None), "any": ([" any"], ("any",), None),
    }
    dmap = {"object": ([" DMAP"], ("object", "DMAP")), "group": ([" GMAP"], ("group", "GMAP")), "interface": ([" interface"], ("interface",)),
            "any": ([" any"], ("any",))}
    dreal = {"object": ([" DREAL"], ("object", "DREAL")), "group": ([" GREAL"], ("group", "GREAL"))}
    for kind, ms in (("dynamic", dyn), ("static", stat)):
        for r in reals:
            for m in ms:
                yield conf(tier, "nat %s %s to %s" % (kind, r, m), "asa", nat_defs() + twice("names", kind, reals[r], ms[m]))
                yield conf(tier, "nat %s %s to %s with destination" % (kind, r, m), "asa", nat_defs() + twice(
                    "swapped", kind, reals[r], ms[m], (dmap["object"], dreal["object"])))
        for i in IFS:
            for m in ("object", "interface"):
                yield conf(tier, "nat %s on %s to %s" % (kind, i, m), "asa", nat_defs() + twice(
                    i, kind, reals["object"], ms[m], (dmap["interface"], dreal["object"])))
        for i in dmap:
            for j in dreal:
                yield conf(tier, "nat %s destination %s, %s" % (kind, i, j), "asa", nat_defs() + twice(
                    "names", kind, reals["group"], ms["object"], (dmap[i], dreal[j]), opts=("inactive",)))
        for pos in ("", " after-auto", " after-object", " after-auto 5", " after-object 12"):
            for o in [()] + [(x,) for x in NAT_OPTIONS] + [("dns", "inactive"), ("no-proxy-arp", "route-lookup"), ("net-to-net", "dns", "unidirectional")]:
                yield conf(tier, "nat %s%s %s" % (kind, pos, " ".join(o)), "asa", nat_defs() + twice(
                    "names", kind, reals["object"], ms["object"], opts=o, pos=pos))
            yield conf(tier, "nat %s%s description" % (kind, pos), "asa", nat_defs() + twice(
                "names", kind, reals["object"], ms["interface"], opts=("inactive",), pos=pos, desc=line("ds")))
    svcs = {"src": sobj("S1", "s1", "tcp", "source") + sobj("S2", "s2", "tcp", "source"), "dst": sobj("S1", "s1") + sobj("S2", "s2")}
    for o in ((), ("dns",), ("inactive",)):
        for dst in (None, (dmap["object"], dreal["group"])):
            n = "%s%s" % (" with destination" if dst else "", " " + o[0] if o else "")
            yield conf(tier, "nat static source service" + n, "asa", nat_defs() + svcs["src"] + twice(
                "names", "static", reals["object"], stat["object"], dst, ("S1", "S2", ("S1", "S2")), opts=o))
            yield conf(tier, "nat static destination service" + n, "asa", nat_defs() + svcs["dst"] + twice(
                "names", "static", reals["object"], stat["object"], dst, ("S1", "S2", ("S2", "S1")), opts=o))
            yield conf(tier, "nat dynamic destination service" + n, "asa", nat_defs() + svcs["dst"] + twice(
                "names", "dynamic", reals["object"], dyn["interface"], dst, ("S1", "S2", ("S2", "S1")), opts=o))
    yield conf(tier, "nat static same service", "asa", nat_defs() + svcs["dst"] + twice(
        "names", "static", reals["object"], stat["object"], None, ("S1", "S1", ("S1", "S1"))))
    yield conf(tier, "nat with trailing blank", "asa", nat_defs() + twice("names", "static", reals["object"], stat["object"], tail=" "))
    yield conf(tier, "nat sections in order", "asa", nat_defs() + twice("names", "static", reals["object"], stat["object"], pos=" after-auto")
               + twice("names", "dynamic", reals["any"], dyn["interface"]) + auto("names", "static", "address", name="N1")
               + twice("swapped", "static", reals["group"], stat["group"]) + auto("any", "dynamic", "interface", name="N2", later=True)
               + twice("anys", "static", reals["group"], stat["group"], pos=" after-object 3")
               + twice("names", "static", reals["object"], stat["any"]))
    for l in ("nat (inside) 1 ", "nat (inside) 0 access-list "):
        yield conf(tier, "old style %s" % l.strip(), "asa", nat_defs() + twice("names", "static", reals["object"], stat["object"])
                   + L1([l, word("w")]) + twice("swapped", "static", reals["object"], stat["object"]))
