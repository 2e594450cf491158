"""Obligations over pfSense configurations: C16, C17."""
from sa import models
from .text import *


def el(tag, *kids):
    """parts of an element"""
    if not kids:
        return ["<%s/>" % tag]
    out = ["<%s>" % tag]
    for k in kids:
        out.extend(k if isinstance(k, list) else [k])
    return out + ["</%s>" % tag]


def many(xs):
    return [p for x in xs for p in x]


class Doc:
    """sections of a configuration and what they mean"""

    def __init__(self, root="pfsense", order=("aliases", "interfaces", "filter")):
        self.root, self.order = root, order
        self.sec = {"aliases": [], "interfaces": [], "filter": [], "other": []}
        self.items = {"aliases": [], "interfaces": [], "filter": []}

    def add(self, sec, xml, item=None):
        self.sec[sec].append(xml)
        if item is not None:
            self.items[sec].append(item)
        return self

    def parts(self):
        body = ["\n"] + [el("version", "21.7")]
        for s in self.order:
            body.append(el(s, *self.sec[s]) if self.sec[s] else el(s))
            body.append(["\n"])
        return ['<?xml version="1.0"?>\n'] + el(self.root, *(body + self.sec["other"]))

    def expected(self):
        return tuple(i for s in ("aliases", "interfaces", "filter") for i in self.items[s])


def doc(name, d, reject=False, options=None, fetched=None, variants=(0, 1)):
    """fetched: address -> what the table holds"""
    if reject:
        fn, args = "rejected", ()
    elif fetched is None:
        fn, args = "pfsense", (d.expected(),)
    else:
        fn, args = "pfsense_fetching", (tuple(fetched), d.expected())
    parts = [p for p in d.parts()]

    def run():
        models.TABLES.clear()
        for u, t in (fetched or {}).items():
            models.TABLES[harness.text([u])] = harness.text(t)
        return harness.run_text(CONFIG, parts, "drv_text", fn, args, identity=IDENT, ignore=IGNORE, variants=variants,
                                call=("read_pfsense", [C(options)]), effects=True, name=name)
    return Case(name, "%s of a configuration" % fn, run=run, line=harness.show_text(parts))


# ------------------------------------------------------------------ interfaces
def wan(d, descr="WAN"):
    return d.add("interfaces", el("wan", el("enable"), el("if", "em0"), el("descr", descr), el("ipaddr", "192.0.2.1"), el("subnet", "24")),
                 ("iface", "wan", None, descr, (("192.0.2.1", "24"),), (), None))


def lan(d, descr="LAN"):
    return d.add("interfaces", el("lan", el("if", "em1"), el("descr", descr), el("ipaddr", ip4("lan")), el("subnet", "24")),
                 ("iface", "lan", None, descr, ((ip4("lan"), "24"),), (), None))


def opt(d, n=1, descr="DMZ"):
    return d.add("interfaces", el("opt%d" % n, el("descr", descr), el("if", "em2.%d" % n)),
                 ("iface", descr, "em2.%d" % n, "opt%d" % n, (), (), None))


def base(**k):
    return opt(lan(wan(Doc(**k))))


# ------------------------------------------------------------------ rules
def hosts(p):
    """name -> elements, meaning, alias"""
    h, s = ip4(p + "h"), ip6(p + "s")
    G = p.upper() + "GRP"
    return {
        "any": ([el("any")], ("any",), None),
        "any with text": ([el("any", "1")], ("any",), None),
        "host": ([el("address", h)], ("host", h), None),
        "host6": ([el("address", s)], ("host", s), None),
        "net": ([el("address", ip4(p + "n"), "/24")], ("net", ip4(p + "n"), "24"), None),
        "net6": ([el("address", s, "/64")], ("net", s, "64"), None),
        "alias": ([el("address", G)], ("group", G), lambda d: alias_hosts(d, G, p)),
        "alias of networks": ([el("address", G)], ("group", G), lambda d: alias_nets(d, G, p)),
        "lan": ([el("network", "lan")], ("iface", "lan"), None),
        "wan": ([el("network", "wan")], ("iface", "wan"), None),
        "opt": ([el("network", "opt1")], ("iface", "DMZ"), None),
    }


def ports(p):
    G = p.upper() + "PORTS"
    return {
        "none": ([], None, None),
        "port": ([el("port", port(p + "p"))], ("eq", port(p + "p")), None),
        "range": ([el("port", low(p + "l"), "-", high(p + "u"))], ("range", low(p + "l"), high(p + "u")), None),
        "alias": ([el("port", G)], ("group", G), lambda d: alias_ports(d, G, p)),
    }


def alias(d, name, typ, address, descr, item, extra=()):
    x = [el("name", name), el("type", typ), el("address", *address) if address else el("address"), el("descr", descr)] + list(extra)
    return d.add("aliases", el("alias", *x), item)


def alias_hosts(d, name, p):
    return alias(d, name, "host", [ip4(p + "ga"), " ", ip6(p + "gb")], "hosts",
                 ("group", "network", name, "hosts", (("host", ip4(p + "ga")), ("host", ip6(p + "gb")))))


def alias_nets(d, name, p):
    return alias(d, name, "network", [ip4(p + "gn"), "/24 ", ip6(p + "gm"), "/48"], "nets",
                 ("group", "network", name, "nets", (("net", ip4(p + "gn"), "24"), ("net", ip6(p + "gm"), "48"))))


def alias_ports(d, name, p):
    return alias(d, name, "port", [port(p + "gp"), " ", low(p + "gl"), ":", high(p + "gu")], "ports",
                 ("group", "port", name, "ports", (("eq", port(p + "gp")), ("range", low(p + "gl"), high(p + "gu"))), "any"))


ANYEND = ([], ("any",), None, None)
TRACK = [el("tracker", "1500000000")]
UNTOUCHED = [el("id"), el("ipprotocol", "inet"), el("tag"), el("tagged"), el("max"), el("max-src-nodes"), el("max-src-conn"), el("max-src-states"),
             el("statetimeout"), el("os"), el("quick", "yes"), el("created", el("time", "1500000000"), el("username", "admin")),
             el("updated", el("time", "1500000001"), el("username", "admin"))]


def rule(d, src, dst, typ="pass", iface=(["lan"], "lan"), proto=None, sport=([], None, None), dport=([], None, None), icmp=None, opts=(),
         extra=(), descr="a rule", swapped=False, missing=()):
    x = [el("type", typ), el("interface", *iface[0])]
    if proto:
        x.append(el("protocol", proto))
    for tag, h, p in (("source", src, sport), ("destination", dst, dport)):
        if tag in missing:
            continue
        k = h[0] + p[0]
        if swapped:
            k.reverse()
        x.append(el(tag, *k))
    if icmp:
        x.append(el("icmptype", icmp))
    x += list(extra) + [el("descr", descr)] + TRACK
    return d.add("filter", el("rule", *x), ("rule", iface[1], None, "permit" if typ == "pass" else "deny", ("name", proto or "any"), src[1], sport[1],
                                             dst[1], dport[1], (icmp, None) if icmp else None, (("xref", "1500000000"),) + tuple(opts), (descr,)))


ANY_ = ([el("any")], ("any",), None)


def c16(tier):
    S, D, SP, DP = hosts("s"), hosts("d"), ports("s"), ports("d")

    def with_aliases(*xs):
        d = base()
        for x in xs:
            if x[2]:
                x[2](d)
        return d
    for i in S:
        for j in D:
            yield doc("hosts %s, %s" % (i, j), rule(with_aliases(S[i], D[j]), S[i], D[j]))
    for i in SP:
        for j in DP:
            yield doc("ports %s, %s" % (i, j), rule(with_aliases(SP[i], DP[j]), S["net"], D["host"], proto="tcp", sport=SP[i], dport=DP[j]))
            yield doc("ports before addresses %s, %s" % (i, j), rule(with_aliases(SP[i], DP[j]), S["host"], D["opt"], proto="udp", sport=SP[i], dport=DP[j],
                                                                      swapped=True))
    for i in S:
        for j in SP:
            yield doc("src %s with port %s" % (i, j), rule(with_aliases(S[i], SP[j]), S[i], D["any"], proto="tcp", sport=SP[j], typ="block"))
            yield doc("dst %s with port %s" % (i, j), rule(with_aliases(D[i], DP[j]), S["lan"], D[i], proto="tcp/udp", dport=DP[j]))
    for m in (("source",), ("destination",), ("source", "destination")):
        src, dst = [([], ("any",)) if t in m else ([el("address", ip4(t[0]))], ("host", ip4(t[0]))) for t in ("source", "destination")]
        yield doc("without %s" % " and ".join(m), rule(base(), src, dst, missing=m))
        yield doc("without %s, blocking" % " and ".join(m), rule(base(), src, dst, missing=m, typ="block", proto="icmp", icmp="echoreq"))
    t = slot("pt", ("[q-z]{3,8}", "[a-o][a-z]{2,6}"))
    for typ in ("pass", "block", "reject", "match", "Pass", "passed", "pas", t):
        yield doc("type %s" % (typ if isinstance(typ, str) else "any word"), rule(base(), S["host"], D["any"], typ=typ))
    for proto in ("tcp", "udp", "tcp/udp", "icmp", "esp", "ah", "gre", "ipv6", "igmp", "pim", "ospf", "any", slot("pp", ("[a-z]{3,6}", "[a-z]{2}[0-9]"))):
        yield doc("protocol %s" % (proto if isinstance(proto, str) else "any word"), rule(base(), S["host"], D["net"], proto=proto))
    for x in ("echoreq", "echorep", "unreach", "0", slot("pi", ("[h-z][a-z]{3,7}",))):
        yield doc("icmp type %s" % (x if isinstance(x, str) else "any word"), rule(base(), S["lan"], D["any"], proto="icmp", icmp=x))
    # interfaces
    other = slot("pj", ("[q-v][a-z]{3,6}", "WG[0-9]"))
    for n, i in (("wan", (["wan"], "wan")), ("lan", (["lan"], "lan")), ("opt1", (["opt1"], "DMZ")), ("openvpn", (["openvpn"], "openvpn")),
                 ("any word", ([other], other)), ("undefined", (["opt7"], "opt7"))):
        yield doc("interface %s" % n, rule(base(), S["host"], D["any"], iface=i))
        yield doc("interface %s of two" % n, rule(rule(base(), S["host"], D["any"], iface=i), S["any"], D["host"], typ="block"))
    for n, descr in (("like another", "lan"), ("like an optional one", "opt1"), ("like nothing", ""), ("like a word", "opt")):
        d = opt(lan(Doc()))
        d = d.add("interfaces", el("wan", el("if", "em0"), el("descr", descr) if descr else [], el("ipaddr", "192.0.2.1"), el("subnet", "24")),
                  ("iface", "wan", None, descr, (("192.0.2.1", "24"),), (), None))
        for i in ((["wan"], "wan"), (["lan"], "lan"), (["opt1"], "DMZ")):
            rule(d, S["host"], D["any"], iface=i)
        rule(d, S["lan"], D["opt"])
        yield doc("interface described %s" % n, d)
    d = opt(opt(base(), 2, "Guests"), 10, "IoT &amp; more")
    d.items["interfaces"][-1] = ("iface", "IoT & more", "em2.10", "opt10", (), (), None)
    for i in (("opt1", "DMZ"), ("opt2", "Guests"), ("opt10", "IoT & more"), ("lan", "lan")):
        rule(d, S["host"], D["opt"], iface=([i[0]], i[1]))
    yield doc("several optional interfaces", d)
    W = slot("pd", ("[A-Z][a-z]{2,8}", "[A-Z]{2,4}_[0-9]", "[0-9]{2}[-][a-z]{2}"))
    for n, t, m in (("of blanks", " Guest  net ", " Guest  net "), ("escaped", "A &amp;amp; B", "A & B"), ("quoted", "&amp;quot;Lab&amp;quot;", '"Lab"'), ("accented", "Z\u00fcrich", "Z\u00fcrich"),
                    ("upper case", "GUESTS", "GUESTS"), ("a number", "42", "42"), ("with a comma", "a.b-c:d", "a.b-c:d"), ("any word", W, W)):
        d = wan(lan(Doc()))
        d.add("interfaces", el("opt4", el("descr", t), el("if", "em4"), el("ipaddr", ip4("po")), el("subnet", "30")), ("iface", m, None, "opt4", ((ip4("po"), "30"),), (), None))
        rule(rule(d, S["host"], ([el("network", "opt4")], ("iface", m)), iface=(["opt4"], m)), ([el("network", "opt4")], ("iface", m)), D["lan"],
             iface=(["lan,opt4"], "floating"), extra=[el("floating", "yes"), el("direction", "in")], opts=(("floating!", ("lan", m), "in"),))
        yield doc("optional interface described %s" % n, d)
        d = opt(lan(Doc())).add("interfaces", el("wan", el("if", "em0"), el("descr", t), el("ipaddr", "dhcp")), ("iface", "wan", "em0", m, (), (), None))
        yield doc("interface with description %s" % n, rule(d, S["host"], ([el("network", "wan")], ("iface", "wan")), iface=(["wan"], "wan")))
        d = rule(rule(base(), S["host"], D["any"], descr=t), S["net"], D["lan"])
        d.items["filter"][-2] = d.items["filter"][-2][:-1] + ((m,),)
        yield doc("rule description %s" % n, d)
    d = lan(Doc())
    d.add("interfaces", el("opt3", el("if", "ovpns1")), ("iface", "opt3", "ovpns1", "opt3", (), (), None))
    d.add("interfaces", el("wan", el("if", "em0"), el("descr", "W"), el("ipaddr", "dhcp")), ("iface", "wan", "em0", "W", (), (), None))
    rule(rule(d, S["host"], D["any"], iface=(["opt3"], "opt3")), ([el("network", "opt3")], ("iface", "opt3")), ([el("network", "wan")], ("iface", "wan")))
    yield doc("optional interface without description, DHCP", d)
    # floating rules
    for n, i, ifs in (("one", "wan", ("wan",)), ("two", "wan,opt1", ("wan", "DMZ")), ("three", "opt1,lan,wan", ("DMZ", "lan", "wan")), ("unknown", "openvpn,lan", ("openvpn", "lan"))):
        for way in ("in", "out", "any"):
            x = [el("floating", "yes"), el("direction", way)]
            yield doc("floating %s %s" % (n, way), rule(base(), S["host"], D["any"], iface=([i], "floating"), extra=x, opts=(("floating!", ifs, way),)))
    yield doc("not floating", rule(base(), S["host"], D["any"], extra=[el("floating", "no"), el("direction", "in")]))
    yield doc("floating and logging", rule(base(), S["host"], D["any"], iface=(["wan"], "floating"), extra=[el("log"), el("floating", "yes"), el("direction", "in"), el("disabled")],
                                           opts=(("floating!", ("wan",), "in"), ("inactive!",), ("log!", ()))))
    # disabled, log, state type
    flags = {"disabled": (el("disabled"), ("inactive!",)), "disabled with text": (el("disabled", "1"), ("inactive!",)), "log": (el("log"), ("log!", ())),
             "log with text": (el("log", "1"), ("log!", ())), "keep state": (el("statetype", "keep state"), None),
             "sloppy": (el("statetype", "sloppy state"), ("statetype", "sloppy state")), "synproxy": (el("statetype", "synproxy state"), ("statetype", "synproxy state")),
             "none": (el("statetype", "none"), ("statetype", "none")), "state": (el("statetype", slot("ps", ("[l-z][a-z]{3,6}",))), ("statetype", slot("ps", ("[l-z][a-z]{3,6}",))))}
    for i in flags:
        yield doc("flag %s" % i, rule(base(), S["host"], D["any"], extra=[flags[i][0]], opts=[o for o in [flags[i][1]] if o]))
        for j in flags:
            if i.split()[0] != j.split()[0] and not (flags[i][0][0] == flags[j][0][0]):
                yield doc("flags %s and %s" % (i, j), rule(base(), S["host"], D["any"], typ="block", extra=[flags[i][0], flags[j][0]],
                                                            opts=[o for o in (flags[i][1], flags[j][1]) if o]))
    # what has no meaning here
    for x in UNTOUCHED:
        yield doc("element %s" % x[0], rule(base(), S["host"], D["net"], proto="tcp", dport=DP["port"], extra=[x]))
    yield doc("all elements without meaning", rule(base(), S["host"], D["net"], extra=UNTOUCHED))
    # what is not known is an error
    for x in ("gateway", "sched", "dnpipe", "ackqueue", "associated-rule-id", "not", "vlanprio", "any", "foo", "Source", "src", "max-src-conn-rate", "nosync", "tcpflags1", "address"):
        for k in ((el(x),) if tier == "quick" else (el(x), el(x, "1"))):
            for n, d in (("only", base()), ("second", rule(base(), S["host"], D["any"]))):
                yield doc("unknown element %s, %s" % (x, n), rule(d, S["host"], D["any"], extra=[k]), reject=True)
    for x in ("not", "foo", "net", "Address", "type", "mask"):
        for side in (0, 1):
            for pos in (0, 1):
                h = [el(x)] + S["host"][0] if pos == 0 else S["host"][0] + [el(x)]
                h = (h, S["host"][1], None)
                yield doc("unknown element %s of an end, %s %s" % (x, side, pos), rule(base(), *((h, D["any"]) if side == 0 else (D["any"], h))), reject=True)
    for x in ("foo", "rules", "Rule"):
        yield doc("unknown element %s of the filter" % x, rule(base(), S["host"], D["any"]).add("filter", el(x)), reject=True)
    for v in BAD:
        for side in (0, 1):
            h = ([el("address", v)] if v else [el("address")], None, None)
            yield doc("address %s, %s" % (v, side), rule(base(), *((h, D["any"]) if side == 0 else (D["any"], h))), reject=True)
    for v in ("lanip", "opt9", "WAN", "DMZ2", "(self)", "l2tp", ""):
        h = ([el("network", v)] if v else [el("network")], None, None)
        yield doc("network %s" % v, rule(base(), h, D["any"]), reject=True)
    for v in ("80-70", "70-70", "443-80", "65535-1"):
        yield doc("port %s" % v, rule(base(), S["any"], D["host"], proto="tcp", dport=([el("port", v)], None, None)), reject=True)
        yield doc("source port %s" % v, rule(base(), S["any"], D["host"], proto="tcp", sport=([el("port", v)], None, None)), reject=True)
    for n, p in (("no address", []), ("only a port", [el("port", "80")])):
        yield doc("source of %s" % n, rule(base(), (p, None, None), D["host"]), reject=True)
        yield doc("destination of %s" % n, rule(base(), D["host"], (p, None, None)), reject=True)
    # order, documents
    for n in (2, 3) if tier == "quick" else (2, 3, 5):
        d = base()
        for i in range(n):
            rule(d, S[("host", "net", "lan", "any", "opt")[i]], D[("any", "host6", "net6", "opt", "host")[i]], typ=("pass", "block", "pass", "reject", "pass")[i],
                 iface=[(["lan"], "lan"), (["opt1"], "DMZ"), (["lan"], "lan"), (["wan"], "wan"), (["opt1"], "DMZ")][i], descr="rule %d" % i)
        yield doc("%d rules" % n, d)
    d = base()
    for i in range(2):
        rule(d, S["host"], D["any"])
    yield doc("the same rule twice", d)
    for root in ("pfsense", "opnsense"):
        for o in (("filter", "interfaces", "aliases"), ("interfaces", "filter", "aliases"), ("aliases", "filter", "interfaces")):
            yield doc("%s in the order %s" % (root, " ".join(o)), rule(S["alias"][2](base(root=root, order=o)), S["alias"], D["opt"]))
    for root in ("foo", "pfSense", "pfsense2", "config"):
        yield doc("document %s" % root, rule(base(root=root), S["host"], D["any"]), reject=True)
    d = base()
    d.add("other", el("nat", el("rule", el("type", "pass"))))
    d.add("other", el("dhcpd", el("lan", el("enable"))))
    yield doc("other sections", rule(d, S["host"], D["any"]))
    yield doc("no rules", base())
    for n, c in (("cut off", lambda p: p[:-1]), ("not closed", lambda p: p[:-1] + ["</foo>"]), ("followed by text", lambda p: p + ["foo"])):
        d = rule(base(), S["host"], D["any"])
        yield Broken(d, n, c)
    for n, x in (("escaped", "a &lt; b &amp; c"), ("accented", "Z\\u00fcrich".encode().decode("unicode_escape"))):
        d = rule(base(), S["host"], D["any"], descr=x)
        d.items["filter"][-1] = d.items["filter"][-1][:-1] + ((x.replace("&lt;", "<").replace("&amp;", "&"),),)
        yield doc("description %s" % n, d)


BAD = ("foo", "10.0.0.256", "10.0.0", "10.0.0.0/33", "10.0.0.0/", "/24", "2001:db8::g", "10.0.0.1-10.0.0.5", "LANGRP", "10.0.0.1 10.0.0.2")


def Broken(d, n, c):
    parts = c(d.parts())

    def run():
        return harness.run_text(CONFIG, parts, "drv_text", "rejected", (), identity=IDENT, ignore=IGNORE, call=("read_pfsense", [NONE]))
    return Case("document %s" % n, "rejected", run=run, line=harness.show_text(parts))


# ------------------------------------------------------------------ aliases
def c17(tier):
    W = lambda n, k="A": slot("an" + n, ("[q-z]{2}_[a-z]{2,6}", k + "[A-Z]{2,6}[0-9]"))
    NAME = W("ame")

    def entry(kind, k):
        """text and meaning of the k-th value of an alias"""
        a, b = ip4("a%d" % k), ip6("b%d" % k)
        if kind == "host":
            return ([a], ("host", a)) if k % 2 else ([b], ("host", b))
        if kind == "network":
            return {0: ([a, "/24"], ("net", a, "24")), 1: ([b, "/48"], ("net", b, "48")), 2: ([a, "/32"], ("net", a, "32")),
                    3: (["10.0.0.0/8"], ("net", "10.0.0.0", "8"))}[k % 4]
        p, l, h = port("p%d" % k), low("l%d" % k), high("h%d" % k)
        return {0: ([p], ("eq", p)), 1: ([l, ":", h], ("range", l, h)), 2: (["443"], ("eq", "443")), 3: (["1000:2000"], ("range", "1000", "2000"))}[k % 4]

    def item(kind, name, descr, content):
        return ("group", "port" if kind == "port" else "network", name, descr, tuple(content)) + (("any",) if kind == "port" else ())

    def put(d, kind, name, ks, descr=("text", "text"), swap=False):
        es = [entry(kind, k) for k in ks]
        txt = []
        for i, (t, m) in enumerate(es):
            txt += ([" "] if i else []) + t
        kids = [el("name", name), el("type", kind), el("address", *txt) if txt else el("address"), el("descr", descr[0]) if descr[0] else el("descr"),
                el("detail", "Entry added||second")]
        if swap:
            kids.reverse()
        return d.add("aliases", el("alias", *kids), item(kind, name, descr[1], [m for _, m in es]))

    def using(d, *names):
        """rules that name the aliases"""
        for n, kind in names:
            if kind == "port":
                rule(d, ([el("any")], ("any",)), ([el("network", "lan")], ("iface", "lan")), proto="tcp", dport=([el("port", n)], ("group", n), None))
                rule(d, ([el("any")], ("any",)), ([el("any")], ("any",)), proto="udp", sport=([el("port", n)], ("group", n), None))
            else:
                rule(d, ([el("address", n)], ("group", n)), ([el("any")], ("any",)))
                rule(d, ([el("any")], ("any",)), ([el("address", n)], ("group", n)), typ="block")
        return d
    KINDS = ("host", "network", "port")
    MAX = 4 if tier == "quick" else 7
    for kind in KINDS:
        for n in range(MAX + 1):
            for off in range(2 if tier == "quick" else 4):
                for swap in (False, True):
                    d = put(base(), kind, NAME, range(off, off + n), swap=swap)
                    yield doc("%s of %d from %d%s" % (kind, n, off, " reversed" if swap else ""), using(d, (NAME, kind)))
        d = put(base(), kind, NAME, [1, 0, 1, 1])
        yield doc("%s with repeated values" % kind, using(d, (NAME, kind)))
        for n, t in (("empty", ("", "")), ("escaped", ("a &lt;b&gt; &amp;amp; c", "a <b> & c")), ("twice escaped", ("&amp;lt;b&amp;gt;", "<b>")), ("of blanks", (" x  y ", " x  y ")),
                     ("any word", (slot("ad", ("[a-z]{2,8}",)),) * 2), ("of lines", ("x\ny", "x\ny")), ("quoted", ("&quot;x&quot; &amp;#039;y&amp;#039;", "\"x\" 'y'"))):
            yield doc("%s description %s" % (kind, n), using(put(base(), kind, NAME, [0, 1], descr=t), (NAME, kind)))
    # names stand for any host
    for n, v in (("a name", "example.net"), ("a network", "10.0.0.0/8"), ("any name", slot("an", ("[g-z]{2,5}[.][g-z]{2,3}",))), ("a range", "10.0.0.1-10.0.0.9")):
        h = entry("host", 1)
        for w, ts, ms in (("alone", [v], [("any",)]), ("first", [v, " "] + h[0], [("any",), h[1]]), ("last", h[0] + [" ", v], [h[1], ("any",)])):
            d = alias(base(), NAME, "host", ts, "text", item("host", NAME, "text", ms))
            yield doc("host %s %s" % (n, w), using(d, (NAME, "host")))
    # several aliases
    for i in KINDS:
        for j in KINDS:
            a, b = W("i", "A"), W("j", "B")
            d = put(put(base(), i, a, [0, 1]), j, b, [2, 1])
            yield doc("%s and %s" % (i, j), using(d, (b, j), (a, i)))
            for k in KINDS:
                c = W("k", "C")
                yield doc("%s, %s and %s" % (i, j, k), using(put(put(put(base(), i, a, [1]), j, b, []), k, c, [0, 1, 2]), (c, k), (a, i)))
    d = put(put(base(), "host", "SAME", [0, 1]), "port", "SAME", [0, 1])
    yield doc("an address and a port alias of the same name", using(d, ("SAME", "port"), ("SAME", "host")))
    for n in (3, 6):
        d = base()
        for i in range(n):
            put(d, KINDS[i % 3], "ALIAS%d" % i, range(i))
        yield doc("%d aliases" % n, using(d, *[("ALIAS%d" % i, KINDS[i % 3]) for i in range(n)]))
    # the alias an address resembles
    d = put(put(base(), "host", "lan", [0]), "network", "any", [0])
    rule(d, ([el("address", "lan")], ("group", "lan")), ([el("address", "any")], ("group", "any")))
    rule(d, ([el("network", "lan")], ("iface", "lan")), ([el("any")], ("any",)))
    yield doc("aliases named as something else", d)
    d = put(base(), "port", "HTTP-ALT", [0, 1])
    yield doc("a port alias with a dash", using(d, ("HTTP-ALT", "port")))
    # types
    for t in ("foo", "url", "Host", "hosts", "urltable_ports", "url_ports", "openvpn", "", "networks"):
        for n in (0, 1):
            d = put(base(), "host", "FIRST", [0, 1]) if n else base()
            d.add("aliases", el("alias", el("name", "G"), el("type", t) if t else el("type"), el("address", "10.0.0.1"), el("url", "http://198.51.100.7/x"), el("descr")))
            yield doc("type %s %d" % (t, n), d, reject=True)
    for kind, bad in (("network", ("foo", "10.0.0.0/33", "10.0.0.256/24", "10.0.0.1/24/3", "10.0.0.0/24  10.0.0.0/8")), ("port", ("20:10", "10:10"))):
        for v in bad:
            d = put(base(), "host", "FIRST", [0])
            d.add("aliases", el("alias", el("name", "G"), el("type", kind), el("address", v), el("descr")))
            yield doc("%s %s" % (kind, v), d, reject=True)
    # tables
    U, V = "https://example.net/list.txt", "http://198.51.100.7/drop?x=1"

    def table(d, name, url, content, descr="a table", more=()):
        return d.add("aliases", el("alias", el("name", name), el("type", "urltable"), el("address", url), el("descr", descr), *([el("url", url), el("updatefreq", "7")] + list(more))),
                     ("group", "network", name, descr, tuple(content)))
    for o in (False, "generic"):
        for n, first in (("first", 0), ("last", 1)):
            d = base()
            if first:
                put(d, "host", "FIRST", [0, 1])
            table(d, NAME, U, [("any",)])
            if not first:
                put(d, "network", "LAST", [0, 1])
            yield doc("table not fetched with %s, %s" % (o, n), using(d, (NAME, "host"), ("FIRST" if first else "LAST", "host")), options=o, fetched={})
        d = table(table(base(), "T1", U, [("any",)]), "T2", V, [("any",)])
        yield doc("tables not fetched with %s" % o, using(d, ("T2", "host"), ("T1", "host")), options=o, fetched={})
    a, b, c, e = ip4("ta"), ip6("tb"), ip4("tc"), ip6("te")
    A, B = ([a], [("host", a)]), ([b], [("host", b)])
    NETS = (["10.1.0.0/16"], [("net", "10.1.0.0", "16")]), (["2001:db8::/32"], [("net", "2001:db8::", "32")]), (["192.0.2.0/255.255.255.0"], [("net", "192.0.2.0", "255.255.255.0")])
    NOISE = ([""], []), (["# a comment"], []), (["; 10.0.0.1"], []), (["10.0.0.256"], []), (["foo/bar"], []), (["10.0.0.0/33"], []), (["example.net"], []), (["//"], [])
    PAD = (lambda t: t), (lambda t: [" "] + t), (lambda t: t + ["\r"]), (lambda t: ["\t"] + t + ["  "])
    seqs = [("empty", []), ("one host", [A]), ("hosts", [A, B, ([c], [("host", c)]), ([e], [("host", e)])]), ("the same host twice", [A, A]), ("networks", list(NETS)), ("mixed", [NETS[0], A, NETS[1], B, NETS[2]])]
    for i, x in enumerate(NOISE):
        seqs += [("noise %d before" % i, [x, A, NETS[0]]), ("noise %d between" % i, [A, x, NETS[1]]), ("noise %d at the end" % i, [NETS[0], B, x])]
    seqs += [("all noise", list(NOISE)), ("hosts between noise", [y for x in NOISE for y in (x, A, NETS[0])])]
    for n, s in seqs:
        for k, pad in enumerate(PAD if len(s) < 4 or tier != "quick" else PAD[:1]):
            for end in (["\n"], []):
                content, text = [], []
                for i, (t, m) in enumerate(s):
                    text += (["\n"] if i else []) + pad(list(t))
                    content += m
                d = table(base(), NAME, U, content)
                for o in (True, None):
                    yield doc("table of %s, %s%s, %s" % (n, k, " closed" if end else "", o), using(d, (NAME, "host")), options=o, fetched={U: text + end if s else [""]})
    for o in (True, None):
        d = table(put(base(), "host", "FIRST", [0, 1]), "T1", U, A[1] + NETS[0][1])
        table(put(d, "port", "PORTS", [0, 1]), "T2", V, B[1])
        using(d, ("T2", "host"), ("FIRST", "host"), ("T1", "host"), ("PORTS", "port"))
        yield doc("two tables %s" % o, d, options=o, fetched={U: A[0] + ["\n"] + NETS[0][0] + ["\n"], V: B[0]})
        d = using(put(base(), "host", "ONLY", [0, 1]), ("ONLY", "host"))
        yield doc("no table %s" % o, d, options=o, fetched={})
