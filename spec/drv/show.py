"""Everything that can be printed is printed."""
from acltk.aclObjects import *
from acltk.cafObjects import *
from acltk.iosObjects import iosConfig
from drv_model import *
from drv_text import parser_options


def shown(x):
    return str(x) != repr(x) or True


def config_shown(c):
    shown(c)
    shown(c.name)
    shown(c.names)
    for n in c.names.objects:
        shown(n)
    for i in c.interfaces.values():
        shown(i)
        if i.switchport is not None and i.switchport.trunk is not None:
            shown(i.switchport.trunk)
        for a in i.addresses:
            shown(a)
    for t in c.objects.time.values():
        shown(t)
        shown(t.objects)
    for o in c.objects.network.values():
        shown(o)
        shown(o.addresses)
    for o in c.objects.service.values():
        shown(o)
    for g in (c.groups.network, c.groups.service, c.groups.protocol, c.groups.icmp, c.groups.port):
        shown(g)
        for x in g.values():
            shown(x)
    for r in c.rules.rules:
        shown(r)
        shown(r.protocol)
        shown(r.src)
        shown(r.dst)
        shown(r.icmp)
        shown(r.options)
    for k in (1, 2, 3):
        for n in c.nat[k]:
            shown(n)
            shown(n.real)
            shown(n.mapped)
    for l in c.access_groups.values():
        shown(l)
    return True


def configuration(text):
    try:
        c = ACLConfig.fromString(text)
    except Exception:
        return True
    return config_shown(c)


def pfsense_configuration(text, fetch):
    try:
        c = ACLConfig.fromString(text, "config.xml", parser_options(fetch))
    except Exception:
        return True
    return config_shown(c)


def query(text, rules):
    try:
        b = cafBlock.fromString(text)
    except Exception:
        return True
    shown(b)
    l = ACLRules()
    for r in rules:
        l.add(rule(r))
    return len(b.run(l, verbose=True)) >= 0


def true():
    return True


def kind_shown(k):
    shown(value(k))
    return True


def container_shown(what, k):
    try:
        c = construct(what, k)[0]
    except Exception:
        return True
    shown(c)
    return True


def built_shown(a):
    try:
        x = build(a)
        n = ACLNode(x)
        m = ACLNode(x, Port("eq", "80"))
    except Exception:
        return True
    return shown(x) and shown(n) and shown(m)


def rule_shown(d):
    try:
        r = full(d)
        s = ACLRule(src=ACLNode(build(d[1])), dst=ACLNode(build(d[2])))
        t = ACLCaption(d[1], d[2])
    except Exception:
        return True
    return shown(r) and shown(s) and shown(t)


def nat_shown(d):
    try:
        n = nat(d)
    except Exception:
        return True
    return shown(n) and shown(n.real) and shown(n.mapped)


def group_shown(d):
    try:
        g = groupof(d)
        x = groupof(d).expand()
    except Exception:
        return True
    return shown(g) and shown(x)


def resolved_shown(rid, protocol, src, sport, dst, dport, icmp, bound, timed):
    try:
        x = resolve_rule(rid, protocol, src, sport, dst, dport, icmp, bound, timed)[0]
    except Exception:
        return True
    for r in x:
        shown(r)
    return True


def resolved_nat_shown(rs, rd, ms, md, rsvc, msvc):
    try:
        x = resolve_nat(rs, rd, ms, md, rsvc, msvc)[0]
    except Exception:
        return True
    for n in x:
        shown(n)
    return True


def expression_shown(e):
    try:
        x = expression(e)
        y = cafBlock(expression(e))
    except Exception:
        return True
    return shown(x) and shown(y)


def filtered(e, rules, nats):
    try:
        c = config(rules, nats)
        x = cafBlock(expression(e))
    except Exception:
        return True
    c.filter(x)
    return True


def times_shown(s, e, days, eday):
    try:
        t = TimeRange("t")
        t.add(TimeRangeObjectAbsolute(s, e))
        t.add(TimeRangeObjectPeriodic(s, days, e, eday))
    except Exception:
        return True
    return shown(t)
