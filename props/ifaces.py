"""Obligations over interfaces, routes and bindings: C15."""
from .ios import *

MASKS = ("255.255.255.0", "255.255.240.0", "255.255.255.252")
ALIAS = ("GigabitEthernet[0-9]/[0-9]", "Ethernet[0-9]{1,2}", "Vlan[1-9][0-9]{1,3}", "[A-Z][a-z]{2,8}[0-9]/[0-9]/[0-9][.][0-9]{1,3}")
VLANS = ("[1-9]", "[1-9][0-9]", "[1-9][0-9]{2}", "[1-3][0-9]{3}")


def alias(p):
    return slot(p + ".alias", ALIAS)


def vlan(p):
    return slot(p + ".vlan", VLANS, numeric=True)


class If:
    """an interface block being put together"""

    def __init__(self, al, *details):
        self.text = ["interface ", al]
        d = dict(name=None, desc=None, addr=[], groups=[], mode=None, vlans=None)
        for t, f in details:
            self.text += ["\n "] + list(t)
            if f:
                f(d)
        sw = (d["mode"] or "", tuple(d["vlans"]) if d["vlans"] is not None else None) \
            if d["mode"] or d["vlans"] is not None else None
        self.item = ("iface", al, d["name"], d["desc"], tuple(d["addr"]), tuple(d["groups"]), sw)

    def form(self):
        return Form((self.text, self.item))


def block(al, *details):
    return If(al, *details).form()


def name(n):
    return ["nameif ", n], lambda d: d.update(name=n)


def desc(t):
    return ["description ", t], lambda d: d.update(desc=t)


def addr(a, m, tail=""):
    return ["ip address ", a, " " + m + tail], lambda d: d["addr"].append((a, m))


def standby(a, m, s):
    return ["ip address ", a, " " + m + " standby ", s], lambda d: d["addr"].append((a, m))


def addr6(a, p, tail=()):
    return ["ipv6 address ", a, "/", p] + list(tail), lambda d: d["addr"].append((a, p))


def local6(a):
    return ["ipv6 address ", a, " link-local"], lambda d: d["addr"].append((a, "128"))


def group(n, way):
    return ["ip access-group ", n, " " + way], lambda d: d["groups"].append(("ip", n, way))


def filt(n, way):
    return ["ipv6 traffic-filter ", n, " " + way], lambda d: d["groups"].append(("ipv6", n, way))


def mode(m):
    return ["switchport mode " + m], lambda d: d.update(mode=m)


def vl(*items):
    t = []
    for i in items:
        if t:
            t.append(",")
        t.append(i[0])
        if len(i) == 2:
            t += ["-", i[1]]
    return t


def allowed(*items):
    return ["switchport trunk allowed vlan "] + vl(*items), lambda d: d.update(vlans=list(items))


def add(*items):
    return ["switchport trunk allowed vlan add "] + vl(*items), lambda d: d.update(vlans=(d["vlans"] or []) + list(items))


def other(t):
    return [t], None


def route(net, mask, gw, tail=()):
    t = ["ip route ", net, " " + mask + " "] + [gw[1]] + list(tail)
    return Form((t, ("route", net, mask, gw)))


def bind(ifn, lst, way):
    return Form((["access-group ", lst, " " + way + " interface ", ifn], ("bind", ifn, lst, way)))


def c15(tier):
    al, d1 = alias("al"), line("ds")
    a, a2, b = ip4("a"), ip4("a2"), ip6("b")
    # ASA
    noise = [other(x) for x in ("shutdown", "no shutdown", "security-level 100", "vlan 10", "no nameif", "no ip address",
                                "management-only", "ospf cost 10", "ip address dhcp setroute")]
    asa_details = {
        "name": name(ifname("n")), "description": desc(d1), "description of keywords": desc("nameif outside"),
        "address": addr(a, "255.255.255.0"), "address with blank": addr(a, "255.255.255.128", " "),
        "standby": standby(a, "255.255.255.0", ip4("sb")), "address6": addr6(b, pfx6("p6")),
        "standby6": addr6(b, pfx6("p6"), [" standby ", ip6("sb6")]),
    }
    for n, x in asa_details.items():
        yield conf(tier, "asa interface " + n, "asa", block(al, x))
        for m, y in asa_details.items():
            if n.split()[0] != m.split()[0]:
                yield conf(tier, "asa interface %s, %s" % (n, m), "asa", block(al, noise[0], x, noise[2], y, noise[1]))
    for x in noise:
        yield conf(tier, "asa interface with " + x[0][0], "asa", block(al, asa_details["name"], x, asa_details["address"]))
    yield conf(tier, "asa interface bare", "asa", block(al))
    yield conf(tier, "asa interfaces", "asa", block("eth0", name("inside"), addr(a, "255.255.255.0"), desc(d1))
               + block("eth1", *noise) + block("eth10", name("outside"), addr6(b, pfx6("p6")), addr(a2, "255.255.0.0")))
    two = block("eth0", name("inside"), addr(a, "255.255.255.0")) + block("eth1", name("outside")) + block("eth2", name("in"))
    lst = nm("acl")
    for way in ("in", "out"):
        for i in ("inside", "outside", "in"):
            yield conf(tier, "asa binding %s %s" % (way, i), "asa", two + bind(i, lst, way))
    yield conf(tier, "asa bindings", "asa", two + bind("in", lst, "in") + bind("outside", lst, "in") + bind("inside", "OTHER", "in")
               + bind("inside", lst, "out"))
    yield conf(tier, "asa binding replaced", "asa", two + bind("inside", "OTHER", "in") + bind("inside", lst, "in") + bind("inside", "OTHER", "out"))
    yield conf(tier, "asa binding of a rule's list", "asa", two + ext("LIST", "permit", *P("ip"), ANY, ANY) + bind("inside", "LIST", "in"))
    yield conf(tier, "asa binding global", "asa", two + L1(["access-group ", lst, " global"]) + bind("inside", "OTHER", "in"))
    yield conf(tier, "asa binding trailing blank", "asa", two + Form((["access-group ", lst, " in interface outside "], ("bind", "outside", lst, "in"))))
    for i in ("insid", "insides", "INSIDE", "eth0", "missing"):
        yield no(tier, "binding to " + i, "asa", two, ["access-group ", lst, " in interface " + i])
    yield no(tier, "binding before the interface", "asa", ["access-group ", lst, " in interface inside"], two)
    # IOS
    inoise = [other(x) for x in ("shutdown", "no ip address", "no ip redirects", "ip address dhcp", "speed 100", "ip nat inside",
                                 "ipv6 enable", "switchport nonegotiate", "standby 1 ip 10.0.0.1", "encapsulation dot1Q 10",
                                 "switchport trunk encapsulation dot1q", "switchport trunk native vlan 99", "no switchport")]
    ios_details = {
        "description": desc(d1), "description of keywords": desc("ip access-group X in"),
        "address": addr(a, "255.255.255.0"), "secondary": addr(a, "255.255.255.128", " secondary"),
        "address with blank": addr(a, "255.255.240.0", " "), "address6": addr6(b, pfx6("p6")), "local6": local6(b),
        "group in": group(nm("g"), "in"), "group out": group(nm("g"), "out"), "group number": group(extn("g"), "in"),
        "filter in": filt(nm("f"), "in"), "filter out": filt(nm("f"), "out"),
        "access": mode("access"), "trunk": mode("trunk"), "vlan": allowed((vlan("v"),)), "range": allowed((vlan("v"), vlan("w"))),
        "vlans": allowed((vlan("v"),), (vlan("w"), vlan("x")), (vlan("y"),)), "added": add((vlan("z"),), (vlan("u"), vlan("t"))),
    }
    for n, x in ios_details.items():
        yield conf(tier, "ios interface " + n, "ios", block(al, x))
        for m, y in ios_details.items():
            if n.split()[0] != m.split()[0]:
                yield conf(tier, "ios interface %s, %s" % (n, m), "ios", block(al, inoise[0], x, inoise[2], y, inoise[1]))
    for x in inoise:
        yield conf(tier, "ios interface with " + x[0][0], "ios", block(al, ios_details["address"], x, ios_details["group in"]))
    yield conf(tier, "ios interface bare", "ios", block(al))
    yield conf(tier, "ios interface of everything", "ios", block(
        al, desc(d1), addr(a, "255.255.255.0"), addr(a2, "255.255.0.0", " secondary"), addr6(b, pfx6("p6")), local6(ip6("l6")),
        group("A", "in"), group("B", "out"), filt("C", "in"), filt("D", "out"), mode("trunk"), allowed((vlan("v"),)), add((vlan("w"), vlan("x")))))
    yield conf(tier, "ios group replaced", "ios", block(al, group("A", "in"), group("B", "in")))
    yield conf(tier, "ios vlans replaced", "ios", block(al, mode("access"), mode("trunk"), allowed((vlan("v"),), (vlan("w"),)), allowed((vlan("x"),))))
    yield conf(tier, "ios vlans added twice", "ios", block(al, allowed((vlan("v"),)), add((vlan("w"),)), add((vlan("x"), vlan("y")))))
    yield conf(tier, "ios vlans of two interfaces", "ios", block("Eth1", mode("trunk"), allowed((vlan("v"),)), add((vlan("w"),)))
               + block("Eth2", allowed((vlan("x"),))))
    yield conf(tier, "ios same list on two interfaces", "ios", block("Eth1", group("A", "in"), group("A", "out")) + block(
        "Eth2", group("A", "in"), filt("A", "in")) + block("Eth3", filt("B", "out")))
    # routes
    E = block("Ethernet1", addr(a, "255.255.255.0")) + block("Ethernet10", addr(a2, "255.255.255.0"), addr(ip4("a3"), "255.0.0.0", " secondary")) \
        + block("Ethernet1/0", addr6(b, pfx6("p6")))
    for n, (net, mask) in {"net": ("10.1.0.0", "255.255.0.0"), "default": ("0.0.0.0", "0.0.0.0"), "host": (ip4("rn"), "255.255.255.255")}.items():
        for tail in ([], [" 250"], [" 10 name ", word("nh")], [" permanent"], [" track 4"]):
            t = "".join(x if isinstance(x, str) else "x" for x in tail)
            yield conf(tier, "route %s by address%s" % (n, t), "ios", E + route(net, mask, ("ip", ip4("gw")), tail))
            for i in ("Ethernet1", "Ethernet10", "Ethernet1/0"):
                yield conf(tier, "route %s by %s%s" % (n, i, t), "ios", E + route(net, mask, ("if", i), tail))
    yield conf(tier, "route by interface and address", "ios", E + route("10.0.0.0", "255.0.0.0", ("if", "Ethernet1"), [" ", ip4("gw")]))
    yield conf(tier, "routes", "ios", E + route("10.0.0.0", "255.0.0.0", ("ip", ip4("gw"))) + route("10.1.0.0", "255.255.0.0", ("if", "Ethernet10"))
               + route("0.0.0.0", "0.0.0.0", ("ip", ip4("gw2"))) + route("10.2.0.0", "255.255.0.0", ("ip", ip4("gw"))))
    yield conf(tier, "route before the interface", "ios", route("10.0.0.0", "255.0.0.0", ("ip", ip4("gw"))) + E)
    for gw, where in (("10.0.0.9", "inside"), ("10.0.1.9", "outside"), ("192.168.0.255", "last")):
        yield conf(tier, "route to %s the network" % where, "ios", block("Eth1", addr("10.0.0.1", "255.255.255.0")) + block(
            "Eth2", addr("10.1.0.1", "255.255.255.0"), addr("192.168.0.1", "255.255.255.0", " secondary")) + route("172.16.0.0", "255.240.0.0", ("ip", gw)))
    yield conf(tier, "route profile", "ios", E + L1("ip route profile") + route("10.0.0.0", "255.0.0.0", ("ip", ip4("gw"))))
