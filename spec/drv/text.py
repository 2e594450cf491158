"""What a configuration text stands for: built from descriptions, one item per statement."""
import datetime
import ipaddress
import urllib.request

import tatsu.ast
from acltk.aclObjects import *
from acltk.fwsmObjects import Webtype, fwsmConfig
from acltk.iosObjects import iosConfig, Route
from acltk.pfsenseObjects import pfsenseConfig, pfsenseParserOptions


def rejected():
    raise ValueError("no dialect accepts this")


def asa(items):
    return ACLConfig(everything(items))


def ios(items):
    return iosConfig(everything(items))


def pfsense(items):
    return pfsenseConfig(everything(items))


def pfsense_fetching(urls, items):
    """urls: what is read from the network"""
    for u in urls:
        urllib.request.urlopen(u)
    return pfsenseConfig(everything(items))


def read_pfsense(text, fetch):
    """of the remarks of a rule only the first is a description, the others are dates"""
    c = ACLConfig.fromString(text, "config.xml", parser_options(fetch))
    for r in c.rules.rules:
        r.remark = r.remark[:1]
    return c


def read_and_sort(text):
    return sort_groups(ACLConfig.fromString(text))


def build_and_sort(fn, items):
    return sort_groups(asa(items) if fn == "asa" else ios(items))


def sort_groups(c):
    """no group resists; sorted copies leave everything as it was, what is sorted in place is in order"""
    copies = []
    for groups in (c.groups.network, c.groups.service, c.groups.port, c.groups.protocol):
        for g in groups.values():
            copies.append(g.sort(insitu=False))
    for groups in (c.groups.network, c.groups.service, c.groups.port, c.groups.protocol):
        for g in groups.values():
            if g.sort() is not g:
                raise KeyError(g.name)
    return c


def parser_options(fetch):
    if fetch is None:
        return None
    if fetch == "generic":
        return ACLParserOptions()
    return pfsenseParserOptions(fetch_urltable=fetch)


def everything(items):
    env = Env()
    out = []
    for d in items:
        i = env.item(d)
        if i is not None:
            out.append(i)
    return out


class Env:
    """definitions so far, the latest of a name counts"""

    def __init__(self):
        self.names = {}
        self.ifaces = {}
        self.times = {}
        self.nobj = {}
        self.sobj = {}
        self.group = {}

    def item(self, d):
        k = d[0]
        if k == "none":
            return None
        if k == "version":
            return ACLVersion(d[1])
        if k == "hostname":
            return tatsu.ast.AST(hostname=d[1])
        if k == "domain":
            return tatsu.ast.AST(domain_name=d[1])
        if k == "name":
            n = Name(d[1], d[2], d[3])
            self.names[d[1]] = n
            return n
        if k == "iface":
            return self.iface(d)
        if k == "time":
            return self.time(d)
        if k == "nobj":
            return self.network_object(d)
        if k == "sobj":
            o = ServiceObject(d[1], d[2], **self.service_fields(d[3]))
            self.sobj[d[1]] = o
            return o
        if k == "group":
            return self.a_group(d)
        if k == "rule":
            return self.rule(d)
        if k == "rules":
            r = ACLRules()
            for x in d[1]:
                r.add(self.rule(x))
            return r
        if k == "bind":
            return InterfaceAccessGroup(d[1], d[2], d[3])
        if k == "nat":
            return self.twice(d)
        if k == "route":
            gw = self.ifaces[d[3][1]] if d[3][0] == "if" else ipaddress.ip_address(d[3][1])
            return Route(ipaddress.ip_network(f"{d[1]}/{d[2]}"), gw)
        raise ValueError(k)

    # -- interfaces: alias, name, description, addresses, lists, switchport, VLANs
    def iface(self, d):
        i = Interface(d[1], [])
        i.nameif = d[2]
        i.description = d[3]
        for a in d[4]:
            i.addresses.append(InterfaceAddress(a[0], a[1]))
        for g in d[5]:
            i.access_groups[g[0] + "-" + g[2]] = InterfaceAccessGroup(i, g[1], g[2])
        if d[6] is not None:
            i.switchport = Switchport()
            i.switchport.mode = d[6][0]
            if d[6][1] is not None:
                i.switchport.trunk = VLANs([VLAN(v[0]) if len(v) == 1 else VLANRange(v[0], v[1]) for v in d[6][1]])
        self.ifaces[d[1]] = i
        if d[2] is not None:
            self.ifaces[d[2]] = i
        return i

    # -- time ranges
    def time(self, d):
        t = TimeRange(d[1])
        for e in d[2]:
            if e[0] == "absolute":
                t.add(TimeRangeObjectAbsolute(moment(e[1]), moment(e[2])))
            else:
                t.add(TimeRangeObjectPeriodic(clock(e[2]), list(e[1]), clock(e[4]), e[3]))
        self.times[d[1]] = t
        return t

    # -- objects
    def network_object(self, d):
        a = d[3]
        if a is None:
            o = NetworkObject(d[1], d[2])
        elif a[0] == "host":
            o = NetworkObject(d[1], d[2], type="host", address=a[1])
        elif a[0] == "subnet":
            o = NetworkObject(d[1], d[2], type="subnet", address=a[1], mask=a[2])
        elif a[0] == "range":
            o = NetworkObject(d[1], d[2], type="range", start=a[1], stop=a[2])
        elif a[0] == "nat":
            o = NetworkObject(d[1], d[2], type="nat")
        else:
            o = NetworkObject(d[1], d[2], type="fqdn", fqdn=a[1], limit=a[2])
        if d[1] not in self.nobj:
            self.nobj[d[1]] = o
        if d[4] is not None:
            o.nat = self.auto(d[4], self.nobj[d[1]])
        return o

    def service_fields(self, s):
        """s: protocol, source, destination, icmp type, icmp code"""
        return {"protocol": Protocol(s[0]), "src": self.port(s[1]), "dst": self.port(s[2]), "icmp_type": s[3],
                "icmp_code": s[4]}

    def a_group(self, d):
        """d: kind, name, description, members, protocol"""
        k = d[1]
        if k == "network":
            g = NetworkGroup(d[2], d[3])
        elif k == "service":
            g = ServiceGroup(d[2], d[3])
        elif k == "protocol":
            g = ProtocolGroup(d[2], d[3])
        elif k == "icmp":
            g = ICMPGroup(d[2], d[3])
        elif k == "port":
            g = PortGroup(d[2], Protocol(d[5]), d[3])
        else:
            raise ValueError(k)
        for m in d[4]:
            g.add(self.member(k, m))
        self.group[(k, d[2])] = g
        return g

    def member(self, k, m):
        if m[0] == "sub":
            return self.group[(k, m[1])]
        if k == "network":
            return self.host(m)
        if k == "service":
            if m[0] == "object":
                return self.sobj[m[1]]
            return Service(**self.service_fields(m))
        if k == "protocol":
            return Protocol(m[1])
        if k == "icmp":
            return ICMP(m[1], None)
        return self.port(m)

    # -- addresses, ports
    def host(self, h):
        k = h[0]
        if k == "host":
            return NetworkHost(h[1])
        if k == "net":
            return Network(h[1], h[2])
        if k == "wild":
            return NetworkWildcard(h[1], h[2])
        if k == "named":
            n = self.names[h[1]]
            return NetworkHost(n.address, n)
        if k == "namednet":
            n = self.names[h[1]]
            return Network(n.address, h[2], n)
        if k == "any":
            return NetworkAny()
        if k == "any4":
            return NetworkAny4()
        if k == "any6":
            return NetworkAny6()
        if k == "iface":
            return NetworkInterface(h[1])
        if k == "object":
            return self.nobj[h[1]]
        if k == "group":
            return self.group[("network", h[1])]
        if k == "url":
            return Webtype(h[1])
        raise ValueError(k)

    def port(self, p):
        if p is None:
            return None
        if p[0] == "range":
            return PortRange(p[1], p[2])
        if p[0] == "group":
            return self.group[("port", p[1])]
        return Port(p[0], p[1])

    # -- rules
    def rule(self, d):
        """d: id, type, mode, protocol, src, sport, dst, dport, icmp, options, remarks"""
        options = {}
        for o in d[10]:
            if o[0] == "log!":
                options["log"] = ACLRuleOptionLog(list(o[1]))
            elif o[0] == "inactive!":
                options["inactive"] = ACLRuleOptionInActive()
            elif o[0] == "floating!":
                options["floating"] = ACLRuleOptionInterface(list(o[1]), o[2])
            elif o[0] == "time!":
                options["time-range"] = self.times[o[1]]
            else:
                options[o[0]] = o[1]
        return ACLRule(id=d[1], extended=d[2], mode=d[3], protocol=self.protocol(d[4]),
                       src=ACLNode(self.host(d[5]), self.port(d[6])), dst=ACLNode(self.host(d[7]), self.port(d[8])),
                       remark=list(d[11]), options=options, icmp=self.icmp(d[9]))

    def protocol(self, p):
        if p[0] == "object":
            return self.sobj[p[1]]
        if p[0] == "group":
            return self.group[(p[1], p[2])]
        return Protocol(p[1])

    def icmp(self, i):
        if i is None:
            return None
        if i[0] == "group":
            return self.group[("icmp", i[1])]
        return ICMP(i[0], i[1])

    # -- NAT
    def nat_iface(self, n):
        return Interface("any", []) if n == "any" else self.ifaces[n]

    def fallback(self, f, iface):
        if f is None:
            return None
        return NATMappedSourceFallback(NetworkInterface(iface.nameif or iface.alias), f[0])

    def nat_node(self, n, iface):
        if n[0] == "interface":
            return NetworkInterface(iface.nameif or iface.alias)
        return self.host(n)

    def auto(self, d, obj):
        """d: real interface, mapped interface, type, mapped, fallback, service, options"""
        ri = self.nat_iface(d[0])
        mi = self.nat_iface(d[1])
        rs = None
        ms = None
        if d[5] is not None:
            rs = Service(Protocol(d[5][0]), None, d[5][1])
            ms = Service(Protocol(d[5][0]), None, d[5][2])
        options = {"auto": True}
        for o in d[6]:
            options[o] = True
        return NATObject(
            NATReal(ri, NATRealNode(obj), NATRealNode(NetworkAny()), rs),
            NATMapped(mi, NATMappedSource(d[2], self.nat_node(d[3], mi), self.fallback(d[4], mi)),
                      NATMappedDestination(NetworkAny()), ms),
            None, options)

    def twice(self, d):
        """d: real if, mapped if, type, real src, mapped src, fallback, (mapped dst, real dst), (real svc, mapped svc),
        description, options"""
        ri = self.nat_iface(d[1])
        mi = self.nat_iface(d[2])
        rdst = None
        mdst = None
        if d[7] is not None:
            mdst = NATMappedDestination(self.nat_node(d[7][0], mi))
            rdst = NATRealNode(self.host(d[7][1]))
        rs = None
        ms = None
        if d[8] is not None:
            rs = self.sobj[d[8][0]]
            ms = self.sobj[d[8][1]]
        options = {}
        for o in d[10]:
            options[o] = True
        return NATObject(
            NATReal(ri, NATRealNode(self.host(d[4])), rdst, rs),
            NATMapped(mi, NATMappedSource(d[3], self.nat_node(d[5], mi), self.fallback(d[6], mi)), mdst, ms),
            d[9], options)


def moment(m):
    """m: day, month, year, hour, minute"""
    if m is None:
        return None
    return datetime.datetime(day=int(m[0]), month=int(m[1]), year=int(m[2]), hour=int(m[3]), minute=int(m[4]))


def clock(c):
    return datetime.time(hour=int(c[0]), minute=int(c[1]))


# ---------------------------------------------------------------- ways to read
class Stream:
    """what is read from an open file"""

    def __init__(self, path):
        self.file = open(path, "rb")

    def read(self):
        return self.file.read()


class NamedStream(Stream):
    def __init__(self, path):
        Stream.__init__(self, path)
        self.name = path


def reader(dialect):
    if dialect == "asa":
        return fwsmConfig
    if dialect == "ios":
        return iosConfig
    if dialect == "pfsense":
        return pfsenseConfig
    return ACLConfig


def read_by(text, dialect, how, options):
    return plain_remarks(read_with(text, dialect, how, options))


def read_with(text, dialect, how, options):
    c = reader(dialect)
    if options is not None:
        if how == "string":
            return c.fromString(text, "config", parser_options(options))
        if how == "path":
            return c.fromPath("config", parser_options(options))
        return c.fromFile(NamedStream("config"), parser_options(options))
    if how == "string":
        return c.fromString(text)
    if how == "file":
        return c.fromFile(Stream("config"))
    if how == "named file":
        return c.fromFile(NamedStream("config"))
    if how == "path":
        return c.fromPath("config")
    raise ValueError()


def read_both(text, other, dialect, how):
    """two configurations, one after the other; how: read the other before, or twice, or fail at it before"""
    c = reader(dialect)
    a = None
    if how == "before":
        a = plain_remarks(ACLConfig.fromString(other))
    elif how == "twice":
        a = plain_remarks(c.fromString(text))
    else:
        try:
            ACLConfig.fromString(other)
        except ValueError:
            pass
    return a, plain_remarks(c.fromString(text))


def plain_remarks(c):
    if isinstance(c, pfsenseConfig):
        for r in c.rules.rules:
            r.remark = r.remark[:1]
    return c


def meaning(fn, items):
    if fn == "asa":
        return asa(items)
    if fn == "ios":
        return ios(items)
    return pfsense(items)


def both(how, fn, items, fn2, items2):
    a = None
    if how != "failed":
        a = meaning(fn, items)
    return a, meaning(fn2, items2)


def rejected_after(text, other):
    """the other configuration is read, then the text is not accepted"""
    try:
        ACLConfig.fromString(other)
    except ValueError:
        return None
    return ACLConfig.fromString(text)


def rejected_after_meaning(fn, items):
    try:
        meaning(fn, items)
    except ValueError:
        return None
    raise ValueError("not known here")


def fetching_by(how, urls, items):
    if how != "string":
        open("config", "rb")
    for u in urls:
        urllib.request.urlopen(u)
    return pfsenseConfig(everything(items))
