"""Reference model: what the address model, groups, rules and configurations mean.

Written from the property statements; never executed, only read by the analyser,
which compares its meaning with the meaning of lib/acltk/aclObjects.py.
"""
import collections
import datetime
import fnmatch
import ipaddress
import itertools
import socket

import tatsu.ast


# ---------------------------------------------------------------- kinds
def want(cond):
    if not cond:
        raise AssertionError("wrong kind")


def weight(text):
    return sum([(ord(c) - 255) * 2**pos for pos, c in enumerate(text)])


class Names:
    def __init__(self):
        self.objects = []

    def add(self, obj):
        want(isinstance(obj, Name))
        self.objects.append(obj)


class Name:
    def __init__(self, hostname=None, address=None, description=None):
        self.hostname = hostname
        self.address = ipaddress.ip_address(address)
        self.description = description


class InterfaceAddress:
    def __init__(self, address, netmask, priority=None):
        self.interface = ipaddress.ip_interface(f"{address}/{netmask}")
        self.priority = priority


class InterfaceAccessGroup:
    def __init__(self, iface, name, direction):
        self.iface = iface
        self.name = name
        self.direction = direction


class Switchport:
    def __init__(self):
        self.mode = ""
        self.access = None
        self.trunk = None


class Interface:
    def __init__(self, alias, details):
        self.alias = alias
        self.addresses = []
        self.access_groups = {}
        self.nameif = None
        self.routes = set()
        self.description = None
        self.switchport = None
        for d in details:
            if d is None:
                continue
            kind = d.type
            if kind == "nameif":
                self.nameif = d.value
            elif kind == "description":
                self.description = d.value
            elif kind == "switchport":
                if self.switchport is None:
                    self.switchport = Switchport()
                self._switchport(d.value)
            elif kind[0] == "ip" and kind[2] == "address":
                self.addresses.append(InterfaceAddress(d.value[0], d.value[2]))
            elif kind[0] == "ipv6" and kind[2] == "address":
                if isinstance(d.value, list):
                    self.addresses.append(InterfaceAddress(d.value[0], d.value[2]))
                else:
                    self.addresses.append(InterfaceAddress(d.value, "128"))
            elif kind[0] == "ip" and kind[2] == "access-group":
                self.access_groups["ip-" + d.value[2]] = InterfaceAccessGroup(self, d.value[0], d.value[2])
            elif kind[0] == "ipv6" and kind[2] == "traffic-filter":
                self.access_groups["ipv6-" + d.value[2]] = InterfaceAccessGroup(self, d.value[0], d.value[2])

    def _switchport(self, value):
        if value["type"] == "mode":
            self.switchport.mode = value["mode"]
        elif value["type"] == "trunk":
            op = value["value"]["op"]
            vlans = value["value"]["vlans"]
            if op == "set" or (op == "add" and self.switchport.trunk is None):
                self.switchport.trunk = vlans
            elif op == "add":
                self.switchport.trunk.items.extend(vlans.items)


class VLAN:
    def __init__(self, value):
        self.value = value


class VLANRange:
    def __init__(self, start, end):
        self.start = start
        self.end = end


class VLANs:
    def __init__(self, items):
        for i in items:
            want(isinstance(i, VLAN) or isinstance(i, VLANRange))
        self.items = items


# ---------------------------------------------------------------- NAT
class NATReal:
    def __init__(self, iface, src, dst, service=None):
        self.iface = NetworkInterface(iface.nameif or iface.alias)
        self.src = src
        self.dst = dst
        self.service = service


class NATRealNode:
    def __init__(self, node):
        self.node = node


class NATMappedSource:
    def __init__(self, _type, node, fallback=None):
        want(node is None or node == "interface" or isinstance(
            node, (NetworkHost, Network, NetworkAny, NetworkObject, NetworkInterface, NetworkGroup)))
        self.type = _type
        self.node = node
        self.fallback = fallback


class NATMappedDestination:
    def __init__(self, node):
        want(node is None or node == "interface" or isinstance(
            node, (NetworkAny, NetworkObject, NetworkInterface, NetworkGroup)))
        self.node = node


class NATMapped:
    def __init__(self, iface, src, dst, service=None):
        self.iface = NetworkInterface(iface.nameif or iface.alias)
        want(src is None or isinstance(src, NATMappedSource))
        want(dst is None or isinstance(dst, NATMappedDestination))
        self.src = src
        self.dst = dst
        self.service = service


class NATMappedSourceFallback:
    def __init__(self, interface=None, ipv6=False):
        self.interface = interface
        self.ipv6 = ipv6


class NATObject:
    def __init__(self, real, mapped, description=None, options=None):
        want(real is None or isinstance(real, NATReal))
        want(mapped is None or isinstance(mapped, NATMapped))
        self.real = real
        self.mapped = mapped
        self.description = description
        self.options = options
        if options is None:
            self.options = {}

    def __and__(self, rule):
        want(isinstance(rule, ACLRule))
        if nat_side(self.real, rule):
            return True
        return nat_side(self.mapped, rule)


def nat_side(side, rule):
    """every address the side specifies is matched, and it specifies one"""
    specified = False
    if side.src and side.src.node:
        specified = True
        if not rule.src.host & ACLNode(side.src.node).host:
            return False
    if side.dst and side.dst.node:
        specified = True
        if not rule.dst.host & ACLNode(side.dst.node).host:
            return False
    return specified


# ---------------------------------------------------------------- groups
class _Group:
    _allowed = None.__class__

    def __init__(self, name, description):
        self.name = name
        self.description = description
        self.objects = []

    def add(self, obj):
        want(isinstance(obj, self._allowed) or isinstance(obj, self.__class__))
        self.objects.append(obj)

    def members(self):
        """leaf members in order"""
        r = []
        for o in self.objects:
            if isinstance(o, self.__class__):
                for m in o.members():
                    r.append(m)
            else:
                r.append(o)
        return r

    def copy(self):
        return self.__class__(self.name, self.description)

    def finish(self, members):
        return members

    def expand(self, insitu=True):
        target = self if insitu else self.copy()
        target.objects = self.finish(self.members())
        return target

    def sort(self, insitu=True):
        raise NotImplementedError()


class Protocol:
    def __init__(self, p):
        self.name = p

    def __iter__(self):
        return [self.name].__iter__()


class ProtocolGroup(_Group):
    _allowed = Protocol

    @staticmethod
    def key_of(o):
        if isinstance(o, Protocol):
            try:
                return int(o.name)
            except ValueError:
                return weight(o.name)
        if isinstance(o, ProtocolGroup):
            return weight(o.name)
        raise ValueError()

    def sort(self, insitu=True):
        obj = self if insitu else self.expand(insitu=False)
        obj.objects = sorted(obj.objects, key=ProtocolGroup.key_of)
        return obj


class ICMP:
    def __init__(self, type, code):
        self.type = type
        self.code = code


class ICMPGroup(_Group):
    _allowed = ICMP


# ---------------------------------------------------------------- addresses
class NetworkObject:
    def __init__(
        self, name, description, type=None, address=None, mask=None, start=None, stop=None, fqdn=None, limit=None
    ):
        self.name = name
        self.description = description
        self.type = type
        if type is None or type == "nat":
            self.addresses = []
        elif type == "host":
            self.addresses = [NetworkHost(address)]
        elif type == "subnet":
            self.addresses = [Network(address, mask)]
        elif type == "range":
            self.addresses = [
                Network(n.network_address, n.prefixlen)
                for n in ipaddress.summarize_address_range(ipaddress.ip_address(start), ipaddress.ip_address(stop))
            ]
        elif type == "fqdn":
            if limit is None:
                self.addresses = [NetworkAny()]
            elif limit == "v4":
                self.addresses = [NetworkAny4()]
            elif limit == "v6":
                self.addresses = [NetworkAny6()]
        else:
            raise ValueError(type)

    def __and__(self, other):
        return match(self, other)


class Network:
    def __init__(self, address, netmask, target=None):
        self.network = ipaddress.ip_network(f"{address}/{netmask}", strict=False)
        want(target is None or isinstance(target, Name))
        self.target = target

    def __and__(self, other):
        return match(self, other)


class NetworkWildcard:
    def __init__(self, address, wildcard):
        self.address = ipaddress.ip_address(address)
        self.wildcard = ipaddress.ip_address(wildcard)

    def __and__(self, other):
        return match(self, other)


class NetworkAny:
    def __init__(self):
        pass

    def __and__(self, other):
        return match(self, other)


class NetworkInterface:
    def __init__(self, name):
        self.name = name

    def __and__(self, other):
        return match(self, other)


class NetworkAny4:
    version = 4

    def __and__(self, other):
        return match(self, other)


class NetworkAny6:
    version = 6

    def __and__(self, other):
        return match(self, other)


class NetworkHost:
    def __init__(self, address, target=None):
        self.address = ipaddress.ip_address(address)
        want(target is None or isinstance(target, Name))
        self.target = target

    def __and__(self, other):
        return match(self, other)


def match(a, b):
    """the sets of addresses a and b denote intersect"""
    # collections match when one of their members does
    if isinstance(a, NetworkGroup):
        return any([bool(m & b) for m in a.objects])
    if isinstance(b, NetworkGroup):
        return any([bool(a & m) for m in b.objects])
    if isinstance(a, NetworkObject):
        return any([bool(m & b) for m in a.addresses])
    if isinstance(b, NetworkObject):
        return any([bool(a & m) for m in b.addresses])
    # everything
    for x in (a, b):
        if isinstance(x, (NetworkAny, NetworkInterface)):
            return True
    # one family
    if isinstance(a, (NetworkAny4, NetworkAny6)):
        return a.version == family(b)
    if isinstance(b, (NetworkAny4, NetworkAny6)):
        return b.version == family(a)
    if family(a) != family(b):
        return False
    if isinstance(a, NetworkWildcard) or isinstance(b, NetworkWildcard):
        # equal in the bits which are significant on both sides
        both = ~ignored(a) & ~ignored(b)
        return (base(a) ^ base(b)) & both == 0
    if isinstance(a, NetworkHost):
        if isinstance(b, NetworkHost):
            return a.address == b.address
        return a.address in b.network
    if isinstance(b, NetworkHost):
        return b.address in a.network
    return a.network.overlaps(b.network)


def family(x):
    if isinstance(x, (NetworkAny4, NetworkAny6)):
        return x.version
    if isinstance(x, Network):
        return x.network.version
    return x.address.version


def ignored(x):
    if isinstance(x, NetworkWildcard):
        return int(x.wildcard)
    if isinstance(x, Network):
        return int(x.network.hostmask)
    return 0


def base(x):
    if isinstance(x, Network):
        return int(x.network.network_address)
    return int(x.address)


class NetworkGroup(_Group):
    _allowed = (Network, NetworkHost, NetworkObject, NetworkAny, NetworkAny4, NetworkAny6)

    def finish(self, members):
        r = []
        for m in members:
            if isinstance(m, NetworkObject):
                r.extend(m.addresses)
            else:
                r.append(m)
        return r

    def collapse(self, insitu=True):
        flat = all([isinstance(o, (Network, NetworkObject)) for o in self.objects])
        if insitu:
            if not flat:
                raise ValueError("expansion required")
            g = self
        else:
            g = self.expand(insitu=False)
        todo = []
        anys = []
        for o in g.objects:
            if isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)):
                anys.append(o)
                continue
            if isinstance(o, Network):
                todo.append(o.network)
            elif isinstance(o, NetworkHost):
                todo.append(o.address)
            else:
                raise KeyError(o)
        r = []
        for family in (4, 6):
            for n in ipaddress.collapse_addresses([a for a in todo if a.version == family]):
                if n.num_addresses > 1:
                    r.append(Network(n.network_address, n.prefixlen))
                else:
                    r.append(NetworkHost(n.network_address))
        g.objects = r + anys
        return g

    @staticmethod
    def key_of(o):
        if isinstance(o, Network):
            return int(o.network.network_address)
        if isinstance(o, NetworkHost):
            return int(o.address)
        if isinstance(o, (NetworkGroup, NetworkObject)):
            return weight(o.name)
        if isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)):
            return weight(o.__class__.__name__)
        raise ValueError()

    def sort(self, insitu=True):
        obj = self if insitu else self.collapse(insitu=False)
        obj.objects = sorted(obj.objects, key=NetworkGroup.key_of)
        return obj

    def __and__(self, other):
        return match(self, other)


# ---------------------------------------------------------------- services and ports
class Service:
    def __init__(self, protocol=None, src=None, dst=None, icmp_type=None, icmp_code=None, **kwargs):
        want(isinstance(protocol, Protocol))
        for k in kwargs:
            want(k == "type")
        self.protocol = protocol
        self.src = src
        self.dst = dst
        self.icmp_type = icmp_type
        self.icmp_code = icmp_code


class ServiceObject(Service):
    def __init__(self, name, description, **kwargs):
        Service.__init__(self, **kwargs)
        self.name = name
        self.description = description


class ServiceGroup(_Group):
    _allowed = (Service, ServiceObject)

    @staticmethod
    def key_of(o):
        if isinstance(o, Service):
            return (
                o.protocol.name,
                PortGroup.key_of(o.src) if o.src else 0,
                PortGroup.key_of(o.dst) if o.dst else 0,
                o.icmp_code or "",
                o.icmp_type or "",
            )
        if isinstance(o, (Protocol, ServiceGroup)):
            return (o.name, 0, 0, "", "")
        raise ValueError()

    def sort(self, insitu=True):
        obj = self if insitu else self.expand(insitu=False)
        obj.objects = sorted(obj.objects, key=ServiceGroup.key_of)
        return obj

    def finish(self, members):
        r = []
        for m in members:
            if isinstance(m, ServiceObject):
                m = Service(m.protocol, m.src, m.dst, m.icmp_type, m.icmp_code)
            r.append(m)
        return r


class Port:
    def __init__(self, op, num):
        self.op = op
        self.num = num

    def rank(self):
        return (self.op or "", self.num)

    def __eq__(self, o):
        return self.rank() == port_rank(o)

    def __ne__(self, o):
        return self.rank() != port_rank(o)

    def __lt__(self, o):
        return self.rank() < port_rank(o)

    def __gt__(self, o):
        return not self < o and self != o

    def __le__(self, o):
        return self < o or self == o

    def __ge__(self, o):
        return not self < o

    def __hash__(self):
        return id(self)


def port_rank(o):
    if o is None:
        return ("", -1)
    return (o.op or "", o.num)


class PortRange:
    def __init__(self, start, stop):
        try:
            bad = int(start) >= int(stop)
        except ValueError:
            bad = False
        want(not bad)
        self.start = start
        self.stop = stop


class PortGroup(_Group):
    _allowed = (Port, PortRange)

    def __init__(self, name, protocol, description):
        _Group.__init__(self, name, description)
        want(isinstance(protocol, Protocol))
        self.protocol = protocol

    def copy(self):
        return PortGroup(self.name, self.protocol, self.description)

    @staticmethod
    def key_of(o):
        if isinstance(o, Port):
            return PortGroup.number(o.num)
        if isinstance(o, PortRange):
            return PortGroup.number(o.start)
        if isinstance(o, PortGroup):
            return weight(o.name)
        raise ValueError()

    @staticmethod
    def number(x):
        try:
            return int(x)
        except ValueError:
            pass
        try:
            return socket.getservbyname(x)
        except OSError:
            return weight(x)

    def sort(self, insitu=True):
        obj = self if insitu else self.expand(insitu=False)
        obj.objects = sorted(obj.objects, key=PortGroup.key_of)
        return obj


# ---------------------------------------------------------------- well-known services
SERVICES = [
    ("aol", ("TCP",), 5190),
    ("bgp", ("TCP",), 179),
    ("biff", ("UDP",), 512),
    ("bootpc", ("UDP",), 68),
    ("bootps", ("UDP",), 67),
    ("chargen", ("TCP",), 19),
    ("citrix-ica", ("TCP",), 1494),
    ("cmd", ("TCP",), 514),
    ("ctiqbe", ("TCP",), 2748),
    ("daytime", ("TCP",), 13),
    ("discard", ("TCP", "UDP",), 9),
    ("domain", ("TCP", "UDP",), 53),
    ("dnsix", ("UDP",), 195),
    ("echo", ("TCP", "UDP",), 7),
    ("exec", ("TCP",), 512),
    ("finger", ("TCP",), 79),
    ("ftp", ("TCP",), 21),
    ("ftp-data", ("TCP",), 20),
    ("gopher", ("TCP",), 70),
    ("https", ("TCP",), 443),
    ("h323", ("TCP",), 1720),
    ("hostname", ("TCP",), 101),
    ("ident", ("TCP",), 113),
    ("imap4", ("TCP",), 143),
    ("irc", ("TCP",), 194),
    ("isakmp", ("UDP",), 500),
    ("kerberos", ("TCP", "UDP",), 750),
    ("klogin", ("TCP",), 543),
    ("kshell", ("TCP",), 544),
    ("ldap", ("TCP",), 389),
    ("ldaps", ("TCP",), 636),
    ("lpd", ("TCP",), 515),
    ("login", ("TCP",), 513),
    ("lotusnotes", ("TCP",), 1352),
    ("mobile-ip", ("UDP",), 434),
    ("nameserver", ("UDP",), 42),
    ("netbios-ns", ("UDP",), 137),
    ("netbios-dgm", ("UDP",), 138),
    ("netbios-ssn", ("TCP",), 139),
    ("nntp", ("TCP",), 119),
    ("ntp", ("UDP",), 123),
    ("pcanywhere-status", ("UDP",), 5632),
    ("pcanywhere-data", ("TCP",), 5631),
    ("pim-auto-rp", ("TCP", "UDP",), 496),
    ("pop2", ("TCP",), 109),
    ("pop3", ("TCP",), 110),
    ("pptp", ("TCP",), 1723),
    ("radius", ("UDP",), 1645),
    ("radius-acct", ("UDP",), 1646),
    ("rip", ("UDP",), 520),
    ("secureid-udp", ("UDP",), 5510),
    ("smtp", ("TCP",), 25),
    ("snmp", ("UDP",), 161),
    ("snmptrap", ("UDP",), 162),
    ("sqlnet", ("TCP",), 1521),
    ("ssh", ("TCP",), 22),
    ("sunrpc", ("TCP", "UDP",), 111),
    ("syslog", ("UDP",), 514),
    ("tacacs", ("TCP", "UDP",), 49),
    ("talk", ("TCP", "UDP",), 517),
    ("telnet", ("TCP",), 23),
    ("tftp", ("UDP",), 69),
    ("time", ("UDP",), 37),
    ("uucp", ("TCP",), 540),
    ("who", ("UDP",), 513),
    ("whois", ("TCP",), 43),
    ("www", ("TCP",), 80),
    ("xdmcp", ("UDP",), 177),
    ("echo", ("ICMP",), 8),
    ("echo-reply", ("ICMP",), 0),
    ("information-reply", ("ICMP",), 16),
    ("information-request", ("ICMP",), 15),
    ("mask-reply", ("ICMP",), 18),
    ("mask-request", ("ICMP",), 17),
    ("mobile-redirect", ("ICMP",), 32),
    ("parameter-problem", ("ICMP",), 12),
    ("redirect", ("ICMP",), 5),
    ("router-advertisement", ("ICMP",), 9),
    ("router-solicitation", ("ICMP",), 10),
    ("source-quench", ("ICMP",), 4),
    ("time-exceeded", ("ICMP",), 11),
    ("timestamp-reply", ("ICMP",), 14),
    ("timestamp-request", ("ICMP",), 13),
    ("unreachable", ("ICMP",), 3),
    ("traceroute", ("ICMP",), 30),
]


class PortUtil:
    @classmethod
    def getservbyname(cls, name, proto=None):
        for known, protocols, port in SERVICES:
            if known != name:
                continue
            for p in protocols:
                if proto is None or proto.upper() == p:
                    return port
        return None


# ---------------------------------------------------------------- time
class TimeRange:
    def __init__(self, name):
        self.name = name
        self.objects = []

    def add(self, obj):
        want(isinstance(obj, (TimeRangeObjectAbsolute, TimeRangeObjectPeriodic)))
        self.objects.append(obj)


class TimeRangeObjectAbsolute:
    def __init__(self, start, end):
        self.start = start
        self.end = end


class TimeRangeObjectPeriodic:
    def __init__(self, stime, sdays, etime, edays):
        self.startTime = stime
        self.startDays = sdays
        self.endTime = etime
        self.endDays = edays


# ---------------------------------------------------------------- rules
class ACLNode:
    def __init__(self, host=None, port=None):
        want(isinstance(host, (Network, NetworkWildcard, NetworkAny, NetworkAny4, NetworkAny6, NetworkGroup,
                               NetworkHost, NetworkObject, NetworkInterface)))
        self.host = host
        want(port is None or isinstance(port, (Port, PortGroup, PortRange)))
        self.port = port

    def __and__(self, other):
        return self.host & other.host


class ACLRuleOptionLog:
    def __init__(self, args):
        self.options = args


class ACLRuleOptionInActive:
    pass


class ACLRuleOptionInterface:
    def __init__(self, interfaces, direction):
        self.interfaces = interfaces
        self.direction = direction


class ACLRule:
    def __init__(self, line=None, id=None, extended=None, mode=None, protocol=None, src=None, dst=None, remark=None,
                 options=None, icmp=None, head=None, **kwargs):
        want(protocol is None or isinstance(protocol, (Protocol, ProtocolGroup, Service, ServiceGroup)))
        want(isinstance(src, ACLNode))
        want(isinstance(dst, ACLNode))
        self.line = line
        self.id = id
        self.extended = extended
        self.mode = mode
        self.protocol = protocol
        self.src = src
        self.dst = dst
        self.remark = remark or []
        self.options = {} if options is None else options
        self.icmp = icmp
        self.head = head

    def __and__(self, other):
        want(isinstance(other, (ACLRule, NATObject)))
        if isinstance(other, NATObject):
            return other & self
        return same_list(self.id, other.id) and bool(self.src.host & other.src.host) and \
            bool(self.dst.host & other.dst.host)


def is_pattern(name):
    return name[0] == "/" and name[-1] == "/"


def same_list(a, b):
    """the access list names agree; no name does not restrict, /x/ is a pattern"""
    if not a or not b:
        return True
    if is_pattern(a):
        if b and a[1:-1]:
            return fnmatch.fnmatchcase(b, a[1:-1])
        return a == b
    if is_pattern(b):
        if a and b[1:-1]:
            return fnmatch.fnmatchcase(a, b[1:-1])
        return a == b
    return a == b


class ACLCaption:
    def __init__(self, text, bg):
        self.text = text
        self.bg = bg


class ACLObjects:
    def __init__(self):
        self.network = {}
        self.service = {}
        self.port = {}
        self.protocol = {}
        self.time = {}
        self.icmp = {}


class ACLRules:
    def __init__(self):
        self.rules = []

    def add(self, i):
        self.rules.append(i)

    def filter(self, target):
        selected = set()
        for rule in self.rules:
            if any([bool(criterion & rule) for criterion in target]):
                selected.add(rule)
        return selected


class ACLVersion:
    def __init__(self, v):
        self.version = v


class ACLParserOptions:
    def __init__(self, trace=False):
        want(isinstance(trace, bool))
        self.trace = trace


# ---------------------------------------------------------------- configuration
class ACLConfig:
    def __init__(self, ast):
        self.timestamp = datetime.datetime.now()
        self.hostname = ""
        self.domainname = ""
        self.names = Names()
        self.interfaces = {}
        self.objects = ACLObjects()
        self.groups = ACLObjects()
        self.rules = ACLRules()
        self.access_groups = collections.defaultdict(list)
        self.nat = {1: [], 2: [], 3: []}
        for item in list(ast):
            if self._take(item):
                ast.remove(item)

    def _take(self, i):
        if isinstance(i, tatsu.ast.AST):
            if "hostname" in i:
                self.hostname = i.hostname
            elif "domain_name" in i:
                self.domainname = i.domain_name
            else:
                return False
        elif isinstance(i, ACLRule):
            self.rules.rules.append(i)
        elif isinstance(i, Name):
            self.names.objects.append(i)
        elif isinstance(i, Interface):
            self.interfaces[i.alias] = i
            for binding in i.access_groups.values():
                self.access_groups[binding.name].append(binding)
        elif isinstance(i, TimeRange):
            self.objects.time[i.name] = i
        elif isinstance(i, NetworkObject):
            if hasattr(i, "nat"):
                self.nat[2].append(i.nat)
                del i.nat
            if i.name not in self.objects.network:
                self.objects.network[i.name] = i
        elif isinstance(i, ServiceObject):
            self.objects.service[i.name] = i
        elif isinstance(i, PortGroup):
            self.groups.port[i.name] = i
        elif isinstance(i, ServiceGroup):
            self.groups.service[i.name] = i
        elif isinstance(i, ProtocolGroup):
            self.groups.protocol[i.name] = i
        elif isinstance(i, ICMPGroup):
            self.groups.icmp[i.name] = i
        elif isinstance(i, NetworkGroup):
            self.groups.network[i.name] = i
        elif isinstance(i, ACLVersion):
            self.version = i.version
        elif isinstance(i, InterfaceAccessGroup):
            self._bind(i)
        elif isinstance(i, NATObject):
            if "after-auto" in i.options or "after-object" in i.options:
                self.nat[3].append(i)
            else:
                self.nat[1].append(i)
        else:
            return False
        return True

    def _bind(self, binding):
        for iface in self.interfaces.values():
            if iface.nameif == binding.iface:
                binding.iface = iface
                iface.access_groups[binding.direction] = binding
                self.access_groups[binding.name].append(binding)
                return
        raise ValueError("access-group of an unknown interface")

    @property
    def name(self):
        return f"{self.hostname}.{self.domainname}"

    @classmethod
    def _parse(cls, data, filename, options):
        want(options is None or isinstance(options, ACLParserOptions))
        from acltk.fwsmObjects import fwsmConfig
        from acltk.iosObjects import iosConfig
        from acltk.pfsenseObjects import pfsenseConfig

        try:
            return fwsmConfig._parse(data, filename, options)
        except Exception:
            pass
        try:
            return iosConfig._parse(data, filename, options)
        except Exception:
            pass
        try:
            return pfsenseConfig._parse(data, filename, options)
        except Exception:
            pass
        raise ValueError("Invalid Config?")

    @classmethod
    def fromString(cls, _data, filename=None, options=None):
        want(isinstance(_data, str))
        return cls._parse(_data + "\n", filename, options)

    @classmethod
    def fromFile(cls, f, options=None):
        return cls.fromString(f.read().decode("utf-8-sig"), getattr(f, "name", "stdin"), options)

    @classmethod
    def fromPath(cls, path, options=None):
        with open(path, "rb") as f:
            return cls.fromFile(f, options)

    # -- closure of a selection
    def resolve(self, r):
        for i in list(r):
            if isinstance(i, ACLRule):
                for x in (i.protocol, i.src.host, i.src.port, i.dst.host, i.dst.port, i.id):
                    r.add(x)
                if i.protocol.name in ("icmp", "icmp6") and i.icmp:
                    r.add(i.icmp)
                for v in i.options.values():
                    if isinstance(v, TimeRange):
                        r.add(v)
                if i.id in self.access_groups:
                    for b in self.access_groups[i.id]:
                        r.add(b)
            elif isinstance(i, NATObject):
                for side in (i.real, i.mapped):
                    if side.src:
                        r.add(side.src.node)
                    if side.dst:
                        r.add(side.dst.node)
                    r.add(side.iface)
                    r.add(side.service)
        out = set(r)
        for i in r:
            close(out, i)
        return out

    def expand(self):
        for table in (self.groups.network, self.groups.port, self.groups.service, self.groups.protocol,
                      self.groups.icmp):
            for group in table.values():
                group.expand()

    def filter(self, caf):
        from acltk.cafObjects import cafBlock

        want(isinstance(caf, cafBlock))
        nat = ACLRules()
        for section in (1, 2, 3):
            nat.rules.extend(self.nat[section])
        return caf.run(self.rules).union(caf.run(nat))


def close(out, i):
    """everything i refers to, with the section it is printed in"""
    out.add(i)
    if isinstance(i, (NetworkGroup, PortGroup, ServiceGroup, ProtocolGroup, ICMPGroup)):
        out.add(i.__class__.__name__)
        for m in i.objects:
            close(out, m)
    elif isinstance(i, (Network, NetworkHost)):
        if i.target:
            out.add(i.target)
            out.add("Names")
    elif isinstance(i, (NetworkObject, ServiceObject, TimeRange)):
        out.add(i.__class__.__name__)
    elif isinstance(i, InterfaceAccessGroup):
        out.add(i.iface)
        out.add("Interface")
    elif isinstance(i, NATObject):
        out.add("NAT")
