"""Obligations over keywords and command words: C20."""
import ast
import os

from .numbers import *

PORT_CODES = """xdmcp www whois who uucp time tftp telnet talk tacacs syslog sunrpc ssh sqlnet snmptrap snmp smtp sip secureid-udp rtsp rsh rpc rip
radius-acct radius pptp pop3 pop2 pim-auto-rp pcanywhere-status pcanywhere-data ntp non500-isakmp nntp nfs netbios-ssn netbios-ss netbios-ns netbios-dgm
nameserver mobile-ip lpd lotusnotes login ldaps ldap kshell klogin kerberos isakmp irc imap4 ident https http hostname h323 gopher ftp-data ftp finger exec
echo domain dnsix discard daytime ctiqbe cmd citrix-ica chargen bootps bootpc biff bgp aol""".split()
ICMP_TYPES = """unreachable ttl-exceeded traceroute timestamp-request timestamp-reply time-exceeded source-route-failed source-quench router-solicitation
router-renumbering router-advertisement redirect reassembly-timeout protocol-unreachable precedence-unreachable port-unreachable parameter-problem
packet-too-big option-missing no-room-for-option network-unknown net-unreachable net-tos-unreachable net-tos-redirect net-redirect neighbor-solicitation
neighbor-redirect neighbor-advertisement mobile-redirect membership-report membership-reduction membership-query mask-request mask-reply
information-request information-reply host-unreachable host-unknown host-tos-unreachable host-tos-redirect host-redirect host-precedence-unreachable
host-isolated general-parameter-problem echo-request echo-reply echo dod-net-prohibited dod-host-prohibited destination-unreachable conversion-error
alternate-address administratively-prohibited address-mask-request address-mask-reply""".split()
PROTOCOLS = "udp tcp snp pptp pim pcp ospf nos ipsec ipinip ip ipv6 igrp igmp icmp6 icmpv6 icmp gre esp eigrp ahp ah".split()
MONTHS = "January February March April May June July August September October November December".split()
DAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()

# how a command that means nothing to the model goes on: a - nothing, t - anything, w - a blank and anything, o - nothing or that,
# b - perhaps blanks; i - an indented block may follow
ASA_IGNORED = """: t|! t|aaa-server wi|aaa w|app-agent t|arp-inspection w|arp w|asdm w|auth-prompt w|boot t|call-home ti|class-map wi|clock t|console w
command-alias t|Cryptochecksum: t|crypto wi|dhcpd w|dhcprelay w|dns-guard t|dns ti|dynamic-access-policy-record wi|enable t|eou w|established w|failover o
firewall t|flow-export t|fragment t|ftp t|global w|group-policy wi|hpm t|http w|icmp w|ipv6 w|ip w|license wi|ldap wi|logging w|mac-address-table t
mac-address t|management-access t|monitor-interface w|mtu w|multicast-routing t|nac-policy ti|names a|nat-control b|no t|ntp w|pager w|passwd t
password-policy w|policy-map wi|privilege w|prompt w|resource t|router wi|route w|same-security-traffic t|service-module w|service-policy w|service w
sla wi|snmp-map wi|snmp-server w|smtp-server w|ssh wi|ssl w|static w|sysopt w|tcp-map wi|telnet w|terminal w|tftp-server w|threat-detection w|timeout w
tls-proxy w|tunnel-group-map w|tunnel-group wi|user-identity w|username wi|url-cache w|virtual t|vpdn t|vpn-group-policy t|vpn ti|webvpn ti
xlate-bypass b|xlate w"""
IOS_IGNORED = """! t|: t|aaa t|alias t|appfw ti|archive ti|arp t|boot-start-marker a|boot-end-marker a|boot t|bridge t|call-home ti|class-map wi|clock t
control-plane ai|crypto ti|cts t|Current configuration t|define interface-range t|diagnostic t|dialer-list t|dial-peer t|dot11 ti|enable t|encryption t
errdisable t|file t|firewall t|hw-module t|isdn t|key ti|license t|lldp t|logging t|login t|mac-address-table t|mac-address t|memory t|mls t|mmi t
multilink t|no t|platform w|policy-map wi|port-channel t|power t|redundancy ti|resource t|rmon t|route-map ti|router ti|rtr t|security t|switch t
service t|snmp-server t|snmp t|spanning-tree t|system t|transceiver ti|username t|vlan ti|vpdn ti|vrf ti|vtp t|wism t
ip cef a|ip as-path t|ip inspect t|ip domain t|ip name-server t|ip route vrf t|ip http t|ip nat t|ip subnet-zero a|ip dhcp excluded-address t
ip tcp t|ip scp t|ip ssh ti|ip classless a|ip forward-protocol t|ip ips t|ip flow-cache t|ip flow-export t|ip vrf ti|ip multicast-routing t
ip accounting-threshold t|ip host t|ip ftp t|ip default-gateway t|ip sla ti|ip slb ti|ip flow-aggregation ti|ip flow-top-talkers ti|ip prefix-list t
ip pim t|ip routing t|ip tftp t|ipv6 unicast-routing t|ipv6 nd w|ipv6 route w|ipv6 prefix-list w|ip domain-lookup t|ip dhcp pool p"""


def table(text):
    for x in text.replace("\n", "|").split("|"):
        k, f = x.rsplit(" ", 1)
        yield k, f


def listed(path, cls, rule):
    """the words a rule of the current parser lists"""
    with open(os.path.join(harness.REPO, path)) as f:
        t = ast.parse(f.read())
    out = []
    for c in t.body:
        if isinstance(c, ast.ClassDef) and c.name == cls:
            for m in c.body:
                if isinstance(m, ast.FunctionDef) and m.name == rule:
                    for n in ast.walk(m):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_token" and \
                                n.args and isinstance(n.args[0], ast.Constant):
                            out.append(n.args[0].value)
    return out


def words(known, rule):
    r = list(known)
    for p, c in (("lib/acltk/fwsm.py", "fwsmParser"), ("lib/acltk/ios.py", "iosParser")):
        r += [w for w in listed(p, c, rule) if w not in r]
    return r


S = lambda: (["host ", ip4("h")], ("host", ip4("h")), None)


def icmp_places(x):
    t, d = [" " + x], (x, None)
    yield "rule", "asa", ext("A", "permit", *P("icmp"), S(), ANY, tail=t, icmp=d)
    yield "rule with a code and log", "asa", ext("A", "permit", *P("icmp6"), S(), ANY, tail=t + [" ", byte("c"), " log"], icmp=(x, byte("c")), opts=(("log!", ()),))
    yield "rule with log", "asa", ext("A", "deny", *P("icmp"), ANY, S(), tail=t + [" log inactive"], icmp=d, opts=(("log!", (None,)), ("inactive!",)))
    yield "service object", "asa", Form((["object service S\n service icmp"] + t, ("sobj", "S", None, ("icmp", None, None) + d)))
    yield "service member", "asa", Form((["object-group service S\n service-object icmp"] + t, ("group", "service", "S", None, (("icmp", None, None) + d,))))
    yield "service member icmp6", "asa", Form((["object-group service S\n service-object icmp6"] + t + [" ", byte("c")],
                                               ("group", "service", "S", None, (("icmp6", None, None, x, byte("c")),))))
    yield "group member", "asa", Form((["object-group icmp-type S\n icmp-object"] + t, ("group", "icmp", "S", None, (("icmp", x),))))
    yield "entry", "ios", nlist("extended", "A", next_("A", "permit", *P("icmp"), S(), ANY, tail=t, icmp=d))
    yield "entry with log", "ios", nlist("extended", "A", next_("A", "deny", *P("icmp"), ANY, S(), tail=t + [" log"], icmp=d, opts=(("log", None),)))
    yield "numbered entry", "ios", numext("101", "permit", *P("icmp"), S(), ANY, tail=t, icmp=d)
    yield "service member of ios", "ios", Form((["object-group service S\n icmp"] + t, ("group", "service", "S", None, (("icmp", None, None) + d,))))
    yield "ipv6 entry", "ios", list6("A", ("10",) + six("A", "permit", *P("icmp"), hosts6("s")["net"], hosts6("d")["any"], tail=t, opts=((x, None),)))


def protocol_places(x):
    yield "rule", "asa", ext("A", "permit", *P(x), S(), ANY)
    yield "rule of networks", "asa", ext("A", "deny", *P(x), ([ip4("n"), " 255.255.0.0"], ("net", ip4("n"), "255.255.0.0")), S(), tail=[" log"], opts=(("log!", ()),))
    yield "service member", "asa", Form((["object-group service S\n service-object " + x], ("group", "service", "S", None, ((x, None, None, None, None),))))
    yield "protocol member", "asa", Form((["object-group protocol S\n protocol-object " + x], ("group", "protocol", "S", None, (("proto", x),))))
    yield "entry", "ios", nlist("extended", "A", next_("A", "permit", *P(x), S(), ANY))
    yield "numbered entry", "ios", numext("101", "deny", *P(x), S(), ANY)
    yield "ipv6 entry", "ios", list6("A", ("10",) + six("A", "deny", *P(x), hosts6("s")["net"], hosts6("d")["any"]))
    yield "service member of ios", "ios", Form((["object-group service S\n " + x], ("group", "service", "S", None, ((x, None, None, None, None),))))


def timed(name, *lines):
    t = ["time-range ", name]
    for l, d in lines:
        t += ["\n "] + l
    return Form((t, ("time", name, tuple(d for l, d in lines))))


def tails(form):
    """name -> what follows the command word"""
    a, b = slot("kt.text", ("[b-m][a-z]{1,7}", "[A-Z][a-z0-9]{2,5}[ ][0-9]{1,3}")), slot("kl.text", ("[b-m][a-z]{1,7} [a-z]{1,4}", "[A-Z][a-z]{0,3}[-.,:/_()][a-z ]{1,5}[a-z]"))
    r = {}
    if form[0] in "ato":
        r["alone"] = []
    if form[0] in "two":
        r["a word"] = [" ", a]
        r["words"] = [" ", b]
        r["a rule"] = [" access-list A permit ip any any"]
    if form[0] == "b":
        r["alone"] = []
        r["a blank"] = [" "]
    if form[0] == "p":
        r["words"] = [" ", a]
    if "i" in form:
        t = list(r.items())[0][1]
        r["a block"] = t + ["\n ", a, "\n  access-list A permit ip any any\n ", b]
    return r


def ignored(tier, dialect, text):
    rule = lambda m: ext("BEFORE" if m == "permit" else "AFTER", m, *P("ip"), S(), ANY) if dialect == "asa" else \
        nlist("extended", "BEFORE" if m == "permit" else "AFTER", next_("BEFORE" if m == "permit" else "AFTER", m, *P("ip"), S(), ANY))
    for k, form in table(text):
        for n, t in tails(form).items():
            if k in ("!", ":") and n == "a word":
                t = t[1:]
            yield conf(tier, "%s command %s with %s" % (dialect, k, n), dialect, rule("permit") + L1([k] + t) + rule("deny"))
        # twice, and at the end
        t = list(tails(form).items())[-1][1]
        yield conf(tier, "%s command %s twice" % (dialect, k), dialect, rule("permit") + L1([k] + t) + L1([k] + t) + rule("deny"))
        yield conf(tier, "%s command %s last" % (dialect, k), dialect, rule("permit") + rule("deny") + L1([k] + t))


def c20(tier):
    for x in words(PORT_CODES, "_port_code_"):
        for n, dia, f in port_places(["eq " + x], ("eq", x)):
            yield conf(tier, "port %s of %s" % (x, n), dia, f, variants=(0,))
        for n, dia, f in port_places(["range " + x + " telnet"], ("range", x, "telnet")):
            if tier != "quick" or n in ("source of tcp", "destination of ios tcp", "port member tcp", "service member source"):
                yield conf(tier, "range from %s of %s" % (x, n), dia, f, variants=(0,))
        for n, dia, f in port_places(["range 1 " + x], ("range", "1", x)):
            if tier != "quick" or n in ("source of tcp", "destination of ios tcp", "port member tcp", "service object source"):
                yield conf(tier, "range to %s of %s" % (x, n), dia, f, variants=(0,))
        for n, dia, f in port_places(["neq " + x], ("neq", x)):
            if n in ("destination of tcp", "source of numbered udp", "service object source"):
                yield conf(tier, "port not %s of %s" % (x, n), dia, f, variants=(0,))
        yield conf(tier, "port %s of nat" % x, "asa", nat_ports(x, "80"), variants=(0,))
        yield conf(tier, "mapped port %s of nat" % x, "asa", nat_ports("80", x), variants=(0,))
    for x in words(ICMP_TYPES, "_icmp_type_name_"):
        for n, dia, f in icmp_places(x):
            yield conf(tier, "icmp type %s of %s" % (x, n), dia, f, variants=(0,))
    for x in words(PROTOCOLS, "_protocol_code_"):
        for n, dia, f in protocol_places(x):
            yield conf(tier, "protocol %s of %s" % (x, n), dia, f, variants=(0,))
    yield from ignored(tier, "asa", ASA_IGNORED)
    yield from ignored(tier, "ios", IOS_IGNORED)
    yield conf(tier, "blank lines", "asa", L1("") + ext("A", "permit", *P("ip"), S(), ANY) + L1("") + L1("") + ext("A", "deny", *P("ip"), S(), ANY))
    yield conf(tier, "ios blank lines", "ios", L1("") + numbered("5", "permit", S()) + L1("") + L1("") + numbered("5", "deny", S()))
    for v in ("ASA Version 8.2(5)", "ASA Version 9.14(3)18 ", "FWSM Version 4.1(5) <context>", "FWSM Version 2.3"):
        yield conf(tier, "version " + v, "", Form(([v], ("version", v))) + ext("A", "permit", *P("ip"), S(), ANY))
    for h in ("fw1", "FW-1.x", "_x"):
        yield conf(tier, "hostname " + h, "asa", Form((["hostname " + h], ("hostname", h))) + ext("A", "permit", *P("ip"), S(), ANY))
        yield conf(tier, "ios hostname " + h, "ios", Form((["hostname " + h], ("hostname", h))) + numbered("5", "permit", S()))
    # banners
    for d in ("^C", "#", "%", "$"):
        for n, t in (("a line", ["welcome ", slot("bw", ("[a-z]{3,8}",))]), ("lines", ["\n keep out\naccess-list 1 permit any\n!\n", slot("bw", ("[a-z]{3,8}",)), "\n"])):
            yield conf(tier, "banner %s of %s" % (d, n), "ios", numbered("5", "permit", S()) + L1(["banner motd ", d] + t + [d]) + numbered("5", "deny", S()))
    for e in ("end", "line con 0", "line vty 0 4\n login\n transport input ssh\nend"):
        yield conf(tier, "ends at " + e.split("\n")[0], "ios", numbered("5", "permit", S()) + L1(e))
