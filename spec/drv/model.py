"""Analysis entry points over the model; interpreted abstractly over both trees."""
from acltk.aclObjects import *
from acltk.cafObjects import *
from acltk.fwsmObjects import Webtype


def build(d):
    k = d[0]
    if k == "host":
        return NetworkHost(d[1])
    if k == "net":
        return Network(d[1], d[2])
    if k == "wild":
        return NetworkWildcard(d[1], d[2])
    if k == "any":
        return NetworkAny()
    if k == "any4":
        return NetworkAny4()
    if k == "any6":
        return NetworkAny6()
    if k == "iface":
        return NetworkInterface(d[1])
    if k == "web":
        return Webtype(d[1])
    if k == "ANY":
        return cafNetworkAny()
    if k == "ANY4":
        return cafNetworkAny4()
    if k == "ANY6":
        return cafNetworkAny6()
    if k == "ohost":
        return NetworkObject(d[1], None, type="host", address=d[2])
    if k == "osubnet":
        return NetworkObject(d[1], None, type="subnet", address=d[2], mask=d[3])
    if k == "orange":
        return NetworkObject(d[1], None, type="range", start=d[2], stop=d[3])
    if k == "ofqdn":
        return NetworkObject(d[1], None, type="fqdn", fqdn=d[2], limit=d[3])
    if k == "onone":
        return NetworkObject(d[1], None)
    if k == "objof":
        o = NetworkObject("obj", None)
        o.addresses = [build(x) for x in d[1:]]
        return o
    if k == "group":
        g = NetworkGroup("grp", None)
        for x in d[1:]:
            g.add(build(x))
        return g
    raise ValueError(k)


def both(a, b):
    return bool(build(a) & build(b))


def swapped(a, b):
    """(in the order given, in the other order)"""
    return bool(build(a) & build(b)), bool(build(b) & build(a))


def node_match(a, b):
    return bool(ACLNode(build(a)) & ACLNode(build(b), None))


def rule(d):
    """d: (id, src, dst) and possibly the name of an option"""
    return ACLRule(id=d[0], src=ACLNode(build(d[1])), dst=ACLNode(build(d[2])), options={d[3]: True} if len(d) > 3 else None)


def rule_match(q, r):
    return bool(rule(q) & rule(r))


def full(d):
    """a rule with every field set"""
    r = ACLRule(line=d[3], id=d[0], extended=d[4], mode=d[5], protocol=Protocol(d[6]),
                src=ACLNode(build(d[1]), Port(d[7], d[8])), dst=ACLNode(build(d[2]), Port(d[9], d[10])),
                remark=[d[11]], options={d[12]: d[13]}, icmp=ICMP(d[14], d[15]), head=d[16])
    return r


def full_match(q, r):
    return bool(full(q) & full(r))


def side(c, iface, src, dst, svc):
    if c is NATReal:
        return NATReal(iface, wrap(NATRealNode, src), wrap(NATRealNode, dst), svc)
    return NATMapped(iface, None if src is None else NATMappedSource("static", wrap2(src)),
                     None if dst is None else NATMappedDestination(wrap2(dst)), svc)


def wrap(c, d):
    if d is None:
        return None
    return c(wrap2(d))


def wrap2(d):
    if d[0] == "none":
        return None
    return build(d)


def nat(d):
    """d: (real src, real dst, mapped src, mapped dst, description, options)"""
    i = Interface("outside", [])
    return NATObject(side(NATReal, i, d[0], d[1], None), side(NATMapped, i, d[2], d[3], None), d[4],
                     {d[5][0]: True} if isinstance(d[5], tuple) else d[5])


def nat_match(q, n):
    return bool(rule(q) & nat(n))


def nat_match_direct(q, n):
    return bool(nat(n) & rule(q))


# ---------------------------------------------------------------- configurations
def plain(rid, src, dst):
    return rule((rid, src, dst))


def config(rules, nats):
    """rules: (id, src, dst)...; nats: nat descriptions"""
    return ACLConfig([rule(r) for r in rules] + [nat(n) for n in nats])


def rules_filter(qs, rs):
    l = ACLRules()
    for r in rs:
        l.add(rule(r))
    return l.filter([rule(q) for q in qs]), l.rules


def config_filter(q, rules, nats, auto):
    c = config(rules, nats)
    for n in auto:
        c.nat[2].append(nat(n))
    r = c.filter(cafBlock(rule(q)))
    return r, c.rules.rules, c.nat[1], c.nat[2], c.nat[3]


def config_filter_expr(e, rules, nats):
    c = config(rules, nats)
    return c.filter(cafBlock(expression(e))), c.rules.rules, c.nat[1], c.nat[3]


def expression(e):
    if e[0] == "rule":
        return rule(e[1:])
    if e[0] == "block":
        return cafBlock(expression(e[1]))
    a = expression(e[1])
    b = expression(e[2])
    if e[0] == "union":
        return cafOpUnion(a, b)
    if e[0] == "intersect":
        return cafOpIntersect(a, b)
    if e[0] == "except":
        return cafOpExcept(a, b)
    raise ValueError()


def run_expr(e, rules):
    l = ACLRules()
    for r in rules:
        l.add(rule(r))
    x = cafBlock(expression(e))
    return x.run(l), l.rules


def run_twice(e, rules, nats):
    c = config(rules, nats)
    b = cafBlock(expression(e))
    one = c.filter(b)
    two = c.filter(b)
    return one, two, b, c


def match_keeps(q, r, n):
    a, b, c = full(q), full(r), nat(n)
    x = bool(a & b)
    y = bool(a & c)
    return x, y, bool(a & b), a, b, c


# ---------------------------------------------------------------- groups
def member(d):
    k = d[0]
    if k == "proto":
        return Protocol(d[1])
    if k == "icmp":
        return ICMP(d[1], d[2])
    if k == "port":
        return Port(d[1], d[2])
    if k == "ports":
        return PortRange(d[1], d[2])
    if k == "svc":
        return Service(protocol=Protocol(d[1]), src=None if d[2] is None else member(d[2]),
                       dst=None if d[3] is None else member(d[3]), icmp_type=d[4], icmp_code=d[5])
    if k == "osvc":
        return ServiceObject(d[6], d[7], protocol=Protocol(d[1]), src=None if d[2] is None else member(d[2]),
                             dst=None if d[3] is None else member(d[3]), icmp_type=d[4], icmp_code=d[5], type="service")
    if k == "sub":
        return groupof(d[1])
    if k == "named":
        return named(d[1], d[2])
    return build(d)


def groupof(d):
    """d: (kind, name, description, protocol, members)"""
    kind = d[0]
    if kind == "network":
        g = NetworkGroup(d[1], d[2])
    elif kind == "service":
        g = ServiceGroup(d[1], d[2])
    elif kind == "protocol":
        g = ProtocolGroup(d[1], d[2])
    elif kind == "icmp":
        g = ICMPGroup(d[1], d[2])
    elif kind == "port":
        g = PortGroup(d[1], Protocol(d[3]), d[2])
    else:
        raise ValueError()
    for m in d[4]:
        g.add(member(m))
    return g


def expand_in_place(d):
    g = groupof(d)
    r = g.expand()
    return g, r is g


def expand_copy(d):
    g = groupof(d)
    r = g.expand(insitu=False)
    r2 = g.expand(False)
    return r, g, r is g, r2


def expand_config(ds):
    c = ACLConfig([groupof(d) for d in ds])
    c.expand()
    return c.groups


def expand_shared(kind, protocol, leaves, depth, after):
    """groups of one configuration which use each other"""
    inner = groupof((kind, "inner", None, protocol, leaves))
    l = [inner]
    for i in range(depth):
        g = groupof((kind, "level%d" % i, None, protocol, leaves[:1]))
        for x in list(l):
            g.add(x)
        l.append(g)
    if after:
        l.reverse()
    c = ACLConfig(l)
    c.expand()
    once = [(g.name, list(g.objects)) for g in l]
    c.expand()
    return once, c.groups


def sort_copy(d):
    g = groupof(d)
    r = g.sort(insitu=False)
    return r, g, r is g


def sort_in_place(d):
    g = groupof(d)
    r = g.sort()
    return g, r is g


def collapse_copy(d):
    g = groupof(d)
    r = g.collapse(insitu=False)
    return r, g, r is g


def collapse_in_place(d):
    g = groupof(d)
    r = g.collapse()
    return g, r is g


# ---------------------------------------------------------------- closure
def named(d, name):
    """host or network that was written with a symbolic name"""
    t = Name(name[0], name[1], name[2])
    if d[0] == "host":
        return NetworkHost(d[1], t)
    return Network(d[1], d[2], t)


def addr(d):
    if d[0] == "named":
        return named(d[1], d[2])
    if d[0] == "groupn":
        g = NetworkGroup(d[1], None)
        for x in d[2:]:
            g.add(addr(x))
        return g
    if d[0] == "interfacekw":
        return "interface"
    return build(d)


def proto(d):
    if d[0] == "sub":
        return groupof(d[1])
    return member(d)


def portof(d):
    if d is None:
        return None
    if d[0] == "sub":
        return groupof(d[1])
    return member(d)


def resolve_rule(rid, protocol, src, sport, dst, dport, icmp, bound, timed):
    opts = {"log": ACLRuleOptionLog([])}
    if timed:
        opts["time-range"] = TimeRange("office")
    if isinstance(timed, str):
        opts[timed] = True
    r = ACLRule(id=rid, protocol=proto(protocol), src=ACLNode(addr(src), portof(sport)),
                dst=ACLNode(addr(dst), portof(dport)), options=opts, icmp=None if icmp is None else member(icmp))
    c = ACLConfig([r])
    i = Interface("Ethernet0", [])
    if bound:
        c.access_groups[bound] = [InterfaceAccessGroup(i, bound, "in"), InterfaceAccessGroup(i, bound, "out")]
    x = c.resolve(set([r]))
    return x, c.rules.rules, c.access_groups


def resolve_nat(rs, rd, ms, md, rsvc, msvc):
    i, j = Interface("in", []), Interface("out", [])
    real = NATReal(i, None if rs is None else NATRealNode(addr(rs)), None if rd is None else NATRealNode(addr(rd)),
                   None if rsvc is None else member(rsvc))
    mapped = NATMapped(j, None if ms is None else NATMappedSource("static", addr(ms)),
                       None if md is None else NATMappedDestination(addr(md)), None if msvc is None else member(msvc))
    n = NATObject(real, mapped, None, {"after-auto": True})
    c = ACLConfig([n])
    x = c.resolve(set([n]))
    return x, n


def resolve_mixed(rid, src, dst, name):
    r = ACLRule(id=rid, protocol=Protocol("tcp"), src=ACLNode(addr(src)), dst=ACLNode(addr(dst)))
    n = NATObject(NATReal(Interface("in", []), NATRealNode(addr(dst)), None),
                  NATMapped(Interface("out", []), NATMappedSource("static", addr(src)), None))
    c = ACLConfig([r, n])
    return c.resolve(set([r, n, addr(src)])), r, n


# ---------------------------------------------------------------- bounds, lookup
def port_range(a, b):
    return PortRange(a, b)


def service_port(name, proto):
    return PortUtil.getservbyname(name, proto)


def service_port_any(name):
    return PortUtil.getservbyname(name)


# ---------------------------------------------------------------- added entry points
def answers(a, b):
    """the question has an answer"""
    x = bool(build(a) & build(b))
    return x is True or x is False


def symmetric(a, b):
    return bool(build(a) & build(b)) == bool(build(b) & build(a))


def twice_same(a, b):
    x = build(a)
    y = build(b)
    one = bool(x & y)
    two = bool(x & y)
    return one == two, x, y


def expand_keeps(d):
    g = groupof(d)
    r = g.expand(insitu=False)
    return g, r is g


def sort_keeps(d):
    g = groupof(d)
    r = g.sort(insitu=False)
    return g, r is g


def collapse_keeps(d):
    g = groupof(d)
    r = g.collapse(insitu=False)
    return g, r is g


def resolve_keeps(rid, protocol, src, dst, bound):
    r = ACLRule(id=rid, protocol=proto(protocol), src=ACLNode(addr(src)), dst=ACLNode(addr(dst)))
    c = ACLConfig([r])
    i = Interface("Ethernet0", [])
    if bound:
        c.access_groups[bound] = [InterfaceAccessGroup(i, bound, "in")]
    c.resolve(set([r]))
    return r, c


def sorted_members(d):
    """membership after sorting, whatever the order"""
    g = groupof(d)
    before = list(g.objects)
    g.sort()
    return g.name, g.description, len(g.objects) == len(before), [m in g.objects for m in before]


def collect(kinds):
    """a configuration of one statement of each given kind"""
    return ACLConfig([item(k) for k in kinds])


def collect_left(kinds):
    l = [item(k) for k in kinds]
    ACLConfig(l)
    return l


def item(k):
    t = k[0]
    if t == "rule":
        r = rule(k[1:])
        r.protocol = Protocol("ip")
        return r
    if t == "name":
        return Name(k[1], k[2], k[3])
    if t == "interface":
        return Interface(k[1], [])
    if t == "bound":
        return Interface(k[1], [Item(("ip", None, "access-group"), (k[2], None, k[3]))])
    if t == "named":
        return Interface(k[1], [Item("nameif", k[2])])
    if t == "timerange":
        return TimeRange(k[1])
    if t == "network":
        return NetworkObject(k[1], k[2], type="host", address=k[3])
    if t == "auto":
        o = NetworkObject(k[1], None, type="host", address=k[2])
        o.nat = nat((("host", k[2]), None, ("any",), None, None, {}))
        return o
    if t == "service":
        return ServiceObject(k[1], k[2], protocol=Protocol(k[3]))
    if t == "group":
        return groupof(k[1])
    if t == "version":
        return ACLVersion(k[1])
    if t == "binding":
        return InterfaceAccessGroup(k[1], k[2], k[3])
    if t == "nat":
        return nat((("host", k[1]), None, ("any",), None, None, {k[2]: True} if k[2] else {}))
    if t == "other":
        return k[1]
    raise ValueError(t)


class Item:
    def __init__(self, type, value):
        self.type = type
        self.value = value


def qualified(kinds, h, d):
    c = collect(kinds)
    c.hostname = h
    c.domainname = d
    return c.name


# ---------------------------------------------------------------- constructors
def value(k):
    """one value of each kind a container can be offered"""
    if k == "none":
        return None
    if k == "str":
        return "text"
    if k == "int":
        return 7
    if k == "list":
        return []
    if k == "dict":
        return {}
    if k == "protocol":
        return Protocol("tcp")
    if k == "protocolgroup":
        return ProtocolGroup("p", None)
    if k == "service":
        return Service(protocol=Protocol("tcp"))
    if k == "serviceobject":
        return ServiceObject("s", None, protocol=Protocol("tcp"))
    if k == "servicegroup":
        return ServiceGroup("s", None)
    if k == "icmp":
        return ICMP("0", None)
    if k == "icmpgroup":
        return ICMPGroup("i", None)
    if k == "port":
        return Port("eq", "80")
    if k == "portrange":
        return PortRange("1", "2")
    if k == "portgroup":
        return PortGroup("pg", Protocol("tcp"), None)
    if k == "networkgroup":
        return NetworkGroup("n", None)
    if k == "name":
        return Name("h", "10.0.0.1", None)
    if k == "timerange":
        return TimeRange("t")
    if k == "absolute":
        return TimeRangeObjectAbsolute(None, None)
    if k == "periodic":
        return TimeRangeObjectPeriodic(None, [], None, None)
    if k == "vlan":
        return VLAN("1")
    if k == "vlanrange":
        return VLANRange("1", "2")
    if k == "rule":
        return rule((None, ("any",), ("any",)))
    if k == "node":
        return ACLNode(NetworkAny())
    if k == "natobject":
        return NATObject(None, None)
    if k == "natreal":
        return NATReal(Interface("i", []), None, None)
    if k == "natmapped":
        return NATMapped(Interface("i", []), None, None)
    if k == "natrealnode":
        return NATRealNode(None)
    if k == "natmappedsource":
        return NATMappedSource("static", None)
    if k == "natmappeddestination":
        return NATMappedDestination(None)
    if k == "interfacekw":
        return "interface"
    if k == "ifaceobject":
        return Interface("e0", [])
    if k == "options":
        return ACLParserOptions()
    if k == "true":
        return True
    if k == "block":
        return cafBlock(rule((None, ("any",), ("any",))))
    if k == "op":
        return cafOpUnion(rule((None, ("any",), ("any",))), rule((None, ("any",), ("any",))))
    if k == "rules":
        return ACLRules()
    if k in ("host", "net", "wild", "any", "any4", "any6", "iface", "web", "ohost", "ANY", "ANY4", "ANY6", "group"):
        return build(SAMPLES[k])
    raise ValueError(k)


SAMPLES = {
    "host": ("host", "10.0.0.1"), "net": ("net", "10.0.0.0", "24"), "wild": ("wild", "10.0.0.0", "0.0.255.0"),
    "any": ("any",), "any4": ("any4",), "any6": ("any6",), "iface": ("iface", "outside"), "web": ("web", "http://x"),
    "ohost": ("ohost", "o", "10.0.0.1"), "ANY": ("ANY",), "ANY4": ("ANY4",), "ANY6": ("ANY6",), "group": ("group",),
}


def construct(what, k):
    v = value(k)
    ok = Protocol("tcp")
    n = ACLNode(NetworkAny())
    if what == "names":
        c = Names()
        c.add(v)
        return c, c.objects[0] is v
    if what == "networkgroup":
        c = NetworkGroup("g", "d")
        c.add(v)
        return c, c.objects[0] is v
    if what == "servicegroup":
        c = ServiceGroup("g", "d")
        c.add(v)
        return c, c.objects[0] is v
    if what == "protocolgroup":
        c = ProtocolGroup("g", "d")
        c.add(v)
        return c, c.objects[0] is v
    if what == "icmpgroup":
        c = ICMPGroup("g", "d")
        c.add(v)
        return c, c.objects[0] is v
    if what == "portgroup":
        c = PortGroup("g", Protocol("tcp"), "d")
        c.add(v)
        return c, c.objects[0] is v
    if what == "portgroup protocol":
        c = PortGroup("g", v, "d")
        return c, c.protocol is v
    if what == "timerange":
        c = TimeRange("t")
        c.add(v)
        return c, c.objects[0] is v
    if what == "vlans":
        c = VLANs([VLAN("1"), v])
        return c, c.items[1] is v
    if what == "node host":
        c = ACLNode(v)
        return c, c.host is v
    if what == "node port":
        c = ACLNode(NetworkAny(), v)
        return c, c.port is v
    if what == "rule protocol":
        c = ACLRule(protocol=v, src=n, dst=n)
        return c, c.protocol is v
    if what == "rule src":
        c = ACLRule(protocol=ok, src=v, dst=n)
        return c, c.src is v
    if what == "rule dst":
        c = ACLRule(protocol=ok, src=n, dst=v)
        return c, c.dst is v
    if what == "service protocol":
        c = Service(protocol=v)
        return c, c.protocol is v
    if what == "serviceobject protocol":
        c = ServiceObject("s", "d", protocol=v)
        return c, c.protocol is v
    if what == "nat real":
        c = NATObject(v, None)
        return c, c.real is v
    if what == "nat mapped":
        c = NATObject(None, v)
        return c, c.mapped is v
    if what == "mapped src":
        c = NATMapped(Interface("i", []), v, None)
        return c, c.src is v
    if what == "mapped dst":
        c = NATMapped(Interface("i", []), None, v)
        return c, c.dst is v
    if what == "mapped source node":
        c = NATMappedSource("static", v)
        return c, c.node is v
    if what == "mapped destination node":
        c = NATMappedDestination(v)
        return c, c.node is v
    if what == "host name":
        c = NetworkHost("10.0.0.1", v)
        return c, c.target is v
    if what == "network name":
        c = Network("10.0.0.0", "24", v)
        return c, c.target is v
    if what == "block":
        c = cafBlock(v)
        return c, c.expr is v
    if what == "op left":
        return cafOpUnion(v, cafBlock(rule((None, ("any",), ("any",)))))
    if what == "op right":
        return cafOpExcept(cafBlock(rule((None, ("any",), ("any",)))), v)
    if what == "options trace":
        c = ACLParserOptions(v)
        return c.trace
    raise ValueError(what)


def own_collections():
    """no two instances share a collection, and no collection is shared with the class"""
    a, b = NetworkGroup("a", None), NetworkGroup("b", None)
    a.add(NetworkAny())
    n, m = Names(), Names()
    n.add(Name("h", "10.0.0.1", None))
    s, t = ServiceGroup("a", None), ServiceGroup("b", None)
    s.add(Service(protocol=Protocol("tcp")))
    p, q = PortGroup("a", Protocol("tcp"), None), PortGroup("b", Protocol("tcp"), None)
    p.add(Port("eq", "80"))
    u, v = TimeRange("a"), TimeRange("b")
    u.add(TimeRangeObjectAbsolute(None, None))
    x, y = ACLRules(), ACLRules()
    x.add(a)
    i, j = Interface("i", []), Interface("j", [])
    i.addresses.append(1)
    i.access_groups["in"] = 1
    i.routes.add(1)
    any_ = ACLNode(NetworkAny())
    r1, r2 = ACLRule(src=any_, dst=any_), ACLRule(src=any_, dst=any_)
    r1.remark.append("x")
    r1.options["log"] = 1
    n1, n2 = NATObject(None, None), NATObject(None, None)
    n1.options["dns"] = True
    return b, m, t, q, v, y, j, r2, n2, NetworkGroup("c", None), Interface("k", []), ACLRule(src=any_, dst=any_)


def own_config():
    c, d = ACLConfig([]), ACLConfig([])
    c.nat[1].append(1)
    c.interfaces["a"] = 1
    c.objects.network["a"] = 1
    c.groups.network["a"] = 1
    c.groups.port["a"] = 1
    c.rules.add(rule((None, ("any",), ("any",))))
    c.access_groups["a"].append(1)
    c.names.add(Name("h", "10.0.0.1", None))
    return d, ACLConfig([])


def full_rule(d):
    """every field in its own slot"""
    return full(d), nat((("host", d[17]), ("any",), ("any",), ("any",), d[18], {d[19]: d[20]}))


def config_sections(q, a, b, c):
    x = ACLConfig([])
    x.nat[1] = [nat(n) for n in a]
    x.nat[2] = [nat(n) for n in b]
    x.nat[3] = [nat(n) for n in c]
    return x.filter(cafBlock(rule(q))), x.nat[1], x.nat[2], x.nat[3]


def collapse_bag(d):
    """what is left is compared whatever its order"""
    g = groupof(d)
    r = g.collapse(insitu=False)
    return r.name, r.description, bag(r.objects)


def sort_copy_bag(d):
    g = groupof(d)
    r = g.sort(insitu=False)
    return r.name, r.description, bag(r.objects)


def collapse_in_place_bag(d):
    g = groupof(d)
    r = g.collapse()
    return r is g, g.name, bag(g.objects)


def bag(l):
    return set(l)


def port_range(a, b):
    r = PortRange(a, b)
    return r.start, r.stop


# ---------------------------------------------------------------- a configuration of everything
def filter_leaves(items, e):
    c = collect(items)
    b = cafBlock(expression(e))
    one = c.filter(b)
    two = c.filter(b)
    return one, two, b, c


def closure_leaves(items, which):
    c = collect(items)
    r = set(c.rules.rules[k] for k in which[0])
    for s in (1, 2, 3):
        for k in which[s]:
            r.add(c.nat[s][k])
    c.resolve(r)
    return c


def question_leaves(items, e):
    """asked the one way, then the other, then the first again"""
    c = collect(items)
    b = cafBlock(expression(e))
    one = c.filter(b)
    c.resolve(c.filter(b))
    two = c.filter(b)
    return one, two, b, c


# ---------------------------------------------------------------- sorting
def sort_order(d):
    """the members in order, sorted in place, and those of a sorted copy"""
    g = groupof(d)
    r = g.sort(insitu=False)
    one = [shown(m) for m in r.objects]
    g = groupof(d)
    r = g.sort()
    return one, r is g, [shown(m) for m in r.objects]


def sort_copy_order(d):
    return [shown(m) for m in groupof(d).sort(insitu=False).objects]


def sort_order_here(d):
    g = groupof(d)
    return g.sort() is g, [shown(m) for m in g.objects]


def shown(m):
    if isinstance(m, Port):
        return m.op, m.num
    if isinstance(m, PortRange):
        return m.start, m.stop
    if isinstance(m, Protocol):
        return m.name
    if isinstance(m, Service):
        return m.protocol.name, shown(m.src), shown(m.dst), m.icmp_type, m.icmp_code
    if isinstance(m, Network):
        return m.network
    if isinstance(m, NetworkHost):
        return m.address
    if m is None:
        return None
    return m.__class__.__name__


# ---------------------------------------------------------------- asked, changed, asked again
def match_changed(q, r, m, how):
    """the second answer is about the rules as they are then"""
    a, b = rule(q), rule(r)
    x = bool(a & b), bool(b & a)
    g = NetworkGroup("inner", None)
    if how == "member":
        b.src.host.add(member(m))
    elif how == "criterion":
        a.src.host.add(member(m))
    elif how == "nested":
        g.add(member(m))
        b.src.host.add(g)
    elif how == "inner":
        b.src.host.add(g)
        x = bool(a & b), bool(b & a)
        g.add(member(m))
    elif how == "host":
        b.dst.host = member(m)
    elif how == "node":
        b.src = ACLNode(member(m))
    elif how == "id":
        b.id = m
    elif how == "addresses":
        b.src.host.addresses.append(member(m))
    elif how == "expand":
        b.src.host.expand()
    return x, bool(a & b), bool(b & a)


def run_changed(e, rules, more, how):
    l = ACLRules()
    for r in rules:
        l.add(rule(r))
    b = cafBlock(expression(e))
    x = b.run(l)
    extra = rule(more)
    if how == "add":
        l.add(extra)
    elif how == "drop":
        l.rules.pop(0)
    elif how == "other":
        l.rules[0] = extra
    elif how == "id":
        l.rules[0].id = more[0]
    y = b.run(l)
    return x, y, l.rules, extra


def filter_changed(e, rules, more, how, nats):
    c = ACLConfig([rule(r) for r in rules] + [nat(n) for n in nats[:1]])
    b = cafBlock(expression(e))
    x = c.filter(b)
    extra = rule(more)
    if how == "nat":
        c.nat[1].append(nat(nats[1]))
    elif how == "late nat":
        c.nat[3].append(nat(nats[1]))
    elif how == "no nat":
        c.nat[1].pop()
    elif how == "nat side":
        c.nat[1][0].real.src.node = build(nats[1][0])
    elif how == "add":
        c.rules.add(extra)
    elif how == "drop":
        c.rules.rules.pop(0)
    elif how == "other":
        c.rules.rules[0] = extra
    elif how == "id":
        c.rules.rules[0].id = more[0]
    y = c.filter(b)
    return x, y, c.rules.rules, extra


def closure_changed(g, m, how):
    d = groupof(g)
    c = ACLConfig([d])
    r = ACLRule(id="list", protocol=Protocol("ip"), src=ACLNode(d), dst=ACLNode(NetworkAny()))
    x = c.resolve(set([r]))
    n = member(m)
    if how == "member":
        d.add(n)
    elif how == "binding":
        i = Interface("Ethernet0", [])
        c.access_groups["list"].append(InterfaceAccessGroup(i, "list", "in"))
    elif how == "protocol":
        p = ProtocolGroup("pg", None)
        p.add(Protocol("tcp"))
        r.protocol = p
    elif how == "dst":
        r.dst = ACLNode(n)
    y = c.resolve(set([r]))
    return x, y


def expand_changed(g, m, which):
    kind = g[0]
    d = groupof(g)
    x = [shown(o) for o in d.expand(insitu=False).objects]
    n = member(m)
    if which == "member":
        d.add(n)
    else:
        for o in d.objects:
            if isinstance(o, d.__class__):
                o.add(n)
                break
    y = [shown(o) for o in d.expand(insitu=False).objects]
    z = [shown(o) for o in d.expand().objects]
    g = groupof((kind, "late", None, "tcp", ()))
    g.add(n)
    d.add(g)
    return x, y, z, [shown(o) for o in d.expand(insitu=False).objects], [shown(o) for o in d.expand().objects], [shown(o) for o in d.expand().objects]
