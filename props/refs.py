"""Obligations over references and definitions: C18."""
from .ifaces import *

KINDS = ("nobj", "ngroup", "pgroup", "sgroup", "sobj", "protogroup", "igroup", "name", "time", "iface")


def rname(p, letters=False):
    """a name that is no keyword"""
    shapes = ("[A-Y][A-Z0-9]{1,6}_[A-Z]", "q[a-z0-9]{1,4}[-][a-z]{1,4}", "Q[a-z]{2}[0-9]{1,3}", "[0-9]{1,3}[.][a-z]{2,4}", "[A-L][-][a-z][.][0-9]",
              "[_][a-z]{1,3}[.][_]", "[A-L]{2}[-]")
    return slot(p + (".lname" if letters else ".rname"), shapes[:3] if letters else shapes)


def define(kind, name, p, dialect="asa"):
    """a definition of the kind that differs from every other definition by its content p"""
    if dialect == "ios":
        if kind == "ngroup":
            return Form((["object-group network ", name, "\n host ", ip4(p)], ("group", "network", name, None, (("host", ip4(p)),))))
        if kind == "sgroup":
            return Form((["object-group service ", name, "\n tcp destination eq ", port(p), " "],
                         ("group", "service", name, None, (("tcp", None, ("eq", port(p)), None, None),))))
        if kind == "iface":
            return block(name, addr(ip4(p), "255.255.255.0"))
    if kind == "nobj":
        return obj(name, p)
    if kind == "ngroup":
        return ngroup(name, p)
    if kind == "pgroup":
        return pgroup(name, p)
    if kind == "sgroup":
        return sgroup(name, p)
    if kind == "sobj":
        return sobj(name, p)
    if kind == "protogroup":
        return Form((["object-group protocol ", name, "\n protocol-object ", byte(p)], ("group", "protocol", name, None, (("proto", byte(p)),))))
    if kind == "igroup":
        return Form((["object-group icmp-type ", name, "\n icmp-object ", byte(p)], ("group", "icmp", name, None, (("icmp", byte(p)),))))
    if kind == "name":
        return named(name, p)
    if kind == "time":
        return Form((["time-range ", name, "\n absolute start 10:30 1 March ", year(p)],
                     ("time", name, (("absolute", ("1", "3", year(p), "10", "30"), None),))))
    if kind == "iface":
        return block("Ethernet0/" + p, ([("nameif "), name], lambda d: d.update(name=name)))
    raise KeyError(kind)


def year(p):
    return slot(p + ".year", ("19[5-9][0-9]", "20[0-4][0-9]"), numeric=True)


def contexts():
    """name, dialect, kinds that satisfy the reference, what is needed before, statement with the reference"""
    H, N = (["host ", ip4("h")], ("host", ip4("h")), None), None
    acl = nm("acl")

    def rule(n, kinds, mk, need=None, dialect="asa"):
        return n, dialect, kinds, need, mk

    def g(kind, head, mem, sub, extra=()):
        def mk(x, kind=kind, head=head, mem=mem, sub=sub, extra=extra):
            t = ["object-group " + head[0] + " USER" + head[1]]
            for m in mem:
                t += ["\n "] + m[0]
            t += ["\n " + sub[0] + " ", x]
            return Form((t, ("group", kind, "USER", None, tuple(m[1] for m in mem) + ((sub[1], x),)) + tuple(extra)))
        return mk

    tcp = P("tcp")
    port_of = lambda x: ([" object-group ", x], ("group", x), None)
    yield rule("rule source object", ("nobj",), lambda x: ext(acl, "permit", *tcp, (["object ", x], ("object", x)), ANY))
    yield rule("rule destination object", ("nobj",), lambda x: ext(acl, "permit", *tcp, H, (["object ", x], ("object", x))))
    yield rule("rule source group", ("ngroup",), lambda x: ext(acl, "deny", *tcp, (["object-group ", x], ("group", x)), H))
    yield rule("rule destination group", ("ngroup",), lambda x: ext(acl, "permit", *P("icmp"), ANY, (["object-group ", x], ("group", x))))
    yield rule("source port group", ("pgroup", "sgroup"), lambda x: ext(acl, "permit", *tcp, H, ANY, sp=port_of(x)))
    yield rule("destination port group", ("pgroup", "sgroup"), lambda x: ext(acl, "permit", *tcp, ANY, H, dp=port_of(x)))
    yield rule("protocol object", ("sobj",), lambda x: ext(acl, "permit", ["object ", x], ("object", x), H, ANY))
    yield rule("protocol service group", ("sgroup",), lambda x: ext(acl, "permit", ["object-group ", x], ("group", "service", x), H, ANY))
    yield rule("protocol group", ("protogroup",), lambda x: ext(acl, "deny", ["object-group ", x], ("group", "protocol", x), H, ANY))
    yield rule("icmp group", ("igroup",), lambda x: ext(acl, "permit", *P("icmp"), H, ANY, tail=[" object-group ", x], icmp=("group", x)))
    yield rule("host name", ("name",), lambda x: ext(acl, "permit", *tcp, (["host ", x], ("named", x)), ANY))
    yield rule("network name", ("name",), lambda x: ext(acl, "permit", *tcp, ANY, ([x, " 255.255.0.0"], ("namednet", x, "255.255.0.0"))))
    yield rule("prefix name", ("name",), lambda x: ext(acl, "permit", *tcp, ([x, "/24"], ("namednet", x, "24")), ANY))
    yield rule("time range", ("time",), lambda x: ext(acl, "permit", *tcp, H, ANY, tail=[" time-range ", x], opts=(("time!", x),)))
    yield rule("time range of a standard list", ("nobj",), lambda x: Form((
        ["access-list ", acl, " standard permit object ", x], ace(acl, "permit", ("name", "ip"), ("object", x), None, ("any",), None, typ="standard"))))
    yield rule("webtype object", ("nobj",), lambda x: Form((
        ["access-list ", acl, " webtype permit tcp object ", x, " eq 80"],
        ace(acl, "permit", ("name", "tcp"), ("any",), None, ("object", x), ("eq", "80"), typ="webtype"))))
    # members
    yield rule("member object", ("nobj",), g("network", ("network", ""), [(["network-object host ", ip4("h")], ("host", ip4("h")))], ("network-object object", "object")))
    yield rule("member network group", ("ngroup",), g("network", ("network", ""), [], ("group-object", "sub")))
    yield rule("second network group", ("ngroup",), g("network", ("network", ""), [(["network-object ", ip4("h"), " 255.255.255.0"], ("net", ip4("h"), "255.255.255.0"))], ("group-object", "sub")))
    yield rule("member host name", ("name",), g("network", ("network", ""), [], ("network-object host", "named")))
    yield rule("member service object", ("sobj",), g("service", ("service", ""), [(["service-object icmp echo"], ("icmp", None, None, "echo", None))], ("service-object object", "object")))
    yield rule("member service group", ("sgroup",), g("service", ("service", ""), [], ("group-object", "sub")))
    for pr in ("tcp", "udp", "tcp-udp"):
        yield rule("member port group " + pr, ("pgroup",), g("port", ("service", " " + pr), [(["port-object eq www"], ("eq", "www"))], ("group-object", "sub"), (pr,)))
    yield rule("member icmp group", ("igroup",), g("icmp", ("icmp-type", ""), [(["icmp-object 8"], ("icmp", "8"))], ("group-object", "sub")))
    yield rule("member protocol group", ("protogroup",), g("protocol", ("protocol", ""), [(["protocol-object tcp"], ("proto", "tcp"))], ("group-object", "sub")))
    # bindings, NAT
    two = lambda: defs(iface("eth0", "zzin"), iface("eth1", "zzout"), obj("ZREAL", "zr"), obj("ZMAP", "zm"), sobj("ZSO", "zso"))
    yield rule("access-group interface", ("iface",), lambda x: bind(x, acl, "in"))

    def nat(ri, mi, kind, real, mapped, dst=None, svc=None):
        t = ["nat (", ri, ",", mi, ") source " + kind + " "] + real[0] + [" "] + mapped[0]
        dd = None
        if dst:
            t += [" destination static "] + dst[0][0] + [" "] + dst[1][0]
            dd = (dst[0][1], dst[1][1])
        ss = None
        if svc:
            t += [" service ", svc[0], " ", svc[1]]
            ss = (svc[1], svc[0])
        return Form((t, ("nat", ri, mi, kind, real[1], mapped[1], None, dd, ss, None, ())))

    O = lambda x: ([x], ("object", x))
    G = lambda x: ([x], ("group", x))
    zr, zm = O("ZREAL"), O("ZMAP")
    yield rule("nat real interface", ("iface",), lambda x: nat(x, "zzout", "static", zr, zm), two)
    yield rule("nat mapped interface", ("iface",), lambda x: nat("zzin", x, "dynamic", zr, zm), two)
    for kind in ("static", "dynamic"):
        yield rule("nat %s real object" % kind, ("nobj",), lambda x, k=kind: nat("zzin", "zzout", k, O(x), zm), two)
        yield rule("nat %s mapped object" % kind, ("nobj",), lambda x, k=kind: nat("zzin", "zzout", k, zr, O(x)), two)
        yield rule("nat %s real group" % kind, ("ngroup",), lambda x, k=kind: nat("zzin", "zzout", k, G(x), zm), two)
        yield rule("nat %s mapped group" % kind, ("ngroup",), lambda x, k=kind: nat("zzin", "zzout", k, zr, G(x)), two)
    yield rule("nat pool object", ("nobj",), lambda x: nat("zzin", "zzout", "dynamic", zr, (["pat-pool ", x], ("object", x))), two)
    yield rule("nat pool group", ("ngroup",), lambda x: nat("zzin", "zzout", "dynamic", zr, (["pat-pool ", x], ("group", x))), two)
    yield rule("nat mapped destination", ("nobj",), lambda x: nat("zzin", "zzout", "static", zr, zm, (O(x), zr)), two)
    yield rule("nat real destination", ("nobj",), lambda x: nat("zzin", "zzout", "static", zr, zm, (zm, O(x))), two)
    yield rule("nat real destination group", ("ngroup",), lambda x: nat("zzin", "zzout", "dynamic", zr, zm, (zm, G(x))), two)
    yield rule("nat mapped destination group", ("ngroup",), lambda x: nat("zzin", "zzout", "dynamic", zr, zm, (G(x), zr)), two)
    yield rule("nat mapped service", ("sobj",), lambda x: nat("zzin", "zzout", "static", zr, zm, None, (x, "ZSO")), two)
    yield rule("nat real service", ("sobj",), lambda x: nat("zzin", "zzout", "static", zr, zm, (zm, zr), ("ZSO", x)), two)

    def auto(x, kind, m, d, ri="zzin", mi="zzout"):
        return Form((["object network USER\n host ", ip4("u"), "\n nat (", ri, ",", mi, ") " + kind + " "] + m,
                     ("nobj", "USER", None, ("host", ip4("u")), (ri, mi, kind, d, None, None, ()))))

    for kind in ("static", "dynamic"):
        yield rule("object nat %s object" % kind, ("nobj",), lambda x, k=kind: auto(x, k, [x], ("object", x)), two)
        yield rule("object nat %s group" % kind, ("ngroup",), lambda x, k=kind: auto(x, k, [x], ("group", x)), two)
    yield rule("object nat pool object", ("nobj",), lambda x: auto(x, "dynamic", ["pat-pool ", x], ("object", x)), two)
    yield rule("object nat pool group", ("ngroup",), lambda x: auto(x, "dynamic", ["pat-pool ", x], ("group", x)), two)
    yield rule("object nat real interface", ("iface",), lambda x: auto(x, "static", ["ZMAP"], ("object", "ZMAP"), x), two)
    yield rule("object nat mapped interface", ("iface",), lambda x: auto(x, "static", ["interface"], ("interface",), "zzin", x), two)
    # IOS
    S = (["host ", ip4("h")], ("host", ip4("h")), None)
    og = lambda x: (["object-group ", x], ("group", x), None)
    yield rule("ios source group", ("ngroup",), lambda x: nlist("extended", acl, next_(acl, "permit", *tcp, og(x), S)), dialect="ios")
    yield rule("ios destination group", ("ngroup",), lambda x: nlist("extended", acl, next_(acl, "deny", *tcp, S, og(x), dp=([" eq www"], ("eq", "www")))), dialect="ios")
    yield rule("ios standard group", ("ngroup",), lambda x: nlist("standard", acl, nstd(acl, "deny", og(x))), dialect="ios")
    yield rule("ios numbered group", ("ngroup",), lambda x: numext("102", "deny", *tcp, S, og(x)), dialect="ios")
    yield rule("ios numbered standard group", ("ngroup",), lambda x: numbered("12", "deny", og(x)), dialect="ios")
    yield rule("ios protocol group", ("sgroup",), lambda x: nlist("extended", acl, next_(
        acl, "permit", ["object-group ", x], ("group", "service", x), S, ANY)), dialect="ios")
    yield rule("ios numbered protocol group", ("sgroup",), lambda x: numext(
        "102", "permit", ["object-group ", x], ("group", "service", x), S, ANY), dialect="ios")
    yield rule("ios port group", ("pgroup", "sgroup"), lambda x: nlist("extended", acl, next_(acl, "permit", *tcp, S, ANY, dp=port_of(x))), dialect="ios")
    yield rule("ios member network group", ("ngroup",), lambda x: Form((
        ["object-group network USER\n host ", ip4("h"), "\n group-object ", x],
        ("group", "network", "USER", None, (("host", ip4("h")), ("sub", x))))), dialect="ios")
    yield rule("ios member service group", ("sgroup",), lambda x: Form((
        ["object-group service USER\n group-object ", x], ("group", "service", "USER", None, (("sub", x),)))), dialect="ios")
    yield rule("ios route interface", ("iface",), lambda x: Form((
        ["ip route 10.0.0.0 255.0.0.0 ", x], ("route", "10.0.0.0", "255.0.0.0", ("if", x)))), dialect="ios")


def c18(tier):
    few = tier == "quick"
    for n, dialect, kinds, need, mk in contexts():
        pre = need() if need else Form()
        all_kinds = [k for k in KINDS if dialect == "asa" or k in ("ngroup", "sgroup", "iface", "pgroup", "igroup", "protogroup")]
        # IOS routes of an unknown interface are not an error of the grammar
        rejects = n != "ios route interface"
        for k in kinds:
            tag = n if len(kinds) == 1 else "%s (%s)" % (n, k)
            D = lambda x, p, k=k: define(k, x, p, dialect)
            d = defs(pre, D("X", "x0"))
            sx = rname("X", k == "name")
            yield conf(tier, tag + ": only one", dialect, defs(pre, D(sx, "x0"), mk(sx)) if k != "iface" else defs(d, mk("X")))
            # prefixes of each other
            ids = ["X", "X1", "X-1", "X.1", "x", "XX"] if k != "iface" else ["X", "X1", "XX", "x", "X/1", "X.1"]
            if k == "iface" and dialect == "asa":
                ids = ["X", "X1", "XX", "x", "X-1", "X.1"]
            for order in (ids, ids[::-1]) if not few else (ids,):
                f = defs(pre, *[D(x, "p%d" % ids.index(x)) for x in order])
                for x in ids if not few else ids[:2] + ids[-2:]:
                    yield conf(tier, tag + ": %s among %s" % (x, " ".join(order)), dialect, f + mk(x))
            f = defs(pre, *[D(x, "p%d" % i) for i, x in enumerate(ids)])
            # a keyword as a name
            for x in ("host", "eq", "inactive", "log", "permit") if k not in ("iface", "name") else ("any-x", "any.1", "anyx", "any4-x", "host-1", "object-x", "interface-") if dialect == "asa" else ():
                yield conf(tier, tag + ": called " + x, dialect, defs(pre, D("X", "x0"), D(x, "x1")) + mk(x))
            # the latest definition
            if k != "nobj":
                yield conf(tier, tag + ": latest", dialect, defs(d, D("Y", "x2"), D("X", "x1")) + mk("X"))
            else:
                yield conf(tier, tag + ": first", dialect, defs(d, D("Y", "x2"), D("X", "x1")) + mk("X"))
            yield conf(tier, tag + ": before a redefinition", dialect, defs(d, mk("X"), D("X", "x1")))
            # other kinds of that name as well
            others = [o for o in all_kinds if o not in kinds]
            # objects and groups are told apart by their names alone in NAT statements
            amb = {"nobj": ("ngroup",), "ngroup": ("nobj",)}.get(k, ()) if "nat" in n.split() else ()
            others1 = [o for o in others if o not in amb]
            if n in ("icmp group", "ios destination group", "ios numbered group"):
                # what follows an address may be the group of its ports
                others1 = [o for o in others1 if o not in ("pgroup", "sgroup")]
            if "protocol" in n:
                others1 = [o for o in others1 if o not in ("sgroup", "protogroup")]
            yield conf(tier, tag + ": other kinds before", dialect, defs(pre, *[define(o, "X", "o" + o, dialect) for o in others1]) + D("X", "x0") + mk("X"))
            yield conf(tier, tag + ": other kinds after", dialect, defs(d, *[define(o, "X", "o" + o, dialect) for o in others1]) + mk("X"))
            if rejects:
                for x in ["X2", "X-", "XXX"] + (["X-1"] if few else ["X-2", "X.", "xX", "X-11", "X1-"]):
                    if x not in ids:
                        yield conf(tier, "rejects " + tag + ": %s not among %s" % (x, " ".join(ids)), dialect, f + mk(x), reject=True)
                yield conf(tier, "rejects " + tag + ": letter case", dialect, defs(pre, D("Xab", "x0")) + mk("XAB"), reject=True)
                yield conf(tier, "rejects " + tag + ": shorter", dialect, defs(pre, D("Xab", "x0")) + mk("Xa"), reject=True)
                yield conf(tier, "rejects " + tag + ": longer", dialect, defs(pre, D("Xab", "x0")) + mk("Xabc"), reject=True)
                yield conf(tier, "rejects " + tag + ": defined after", dialect, defs(pre, mk("X"), D("X", "x0")), reject=True)
        others = [o for o in all_kinds if o not in kinds]
        amb = ()
        if "nat" in n.split():
            amb = {"nobj": ("ngroup",), "ngroup": ("nobj",)}.get(kinds[0], ())
        if n == "icmp group":
            # the same words refer to the ports of the destination
            amb = ("pgroup", "sgroup")
        if n in ("protocol service group", "protocol group"):
            amb = ("sgroup", "protogroup")
        if n.startswith("ios ") and "protocol" in n:
            amb = ("protogroup",)
        if rejects:
            yield conf(tier, "rejects " + n + ": undefined", dialect, pre + mk(rname("X", bool({"name", "iface"} & set(kinds)))), reject=True)
            o2 = [o for o in others if o not in amb]
            yield conf(tier, "rejects " + n + ": only other kinds", dialect, defs(pre, *[define(o, "X", "o" + o, dialect) for o in o2]) + mk("X"), reject=True)
            for o in o2:
                yield conf(tier, "rejects " + n + ": only a " + o, dialect, defs(pre, define(o, "X", "o" + o, dialect)) + mk("X"), reject=True)
    # a group is not known in its own members
    for kind, head, mem, extra in (("network", "network S", "", ()), ("service", "service S", "", ()), ("port", "service S tcp", "", ("tcp",)),
                                   ("icmp", "icmp-type S", "", ()), ("protocol", "protocol S", "", ())):
        yield no(tier, "%s group in itself" % kind, "asa", ["object-group " + head + "\n group-object S"])
    yield no(tier, "network objects of another configuration", "asa", ["access-list A extended permit ip object X any"])
    yield conf(tier, "old definition in the new group of the same name", "asa", ngroup("S", "s1") + Form(
        (["object-group network S\n network-object host ", ip4("s2"), "\n group-object S"],
         ("group", "network", "S", None, (("host", ip4("s2")), ("sub", "S"))))))
    # definitions go with their own reference
    yield conf(tier, "each its own", "asa", defs(obj("A", "a"), ngroup("B", "b"), obj("AB", "ab"), ngroup("BA", "ba"), named("N", "n"), named("NN", "nn"))
               + ext("L", "permit", *P("ip"), (["object A"], ("object", "A")), (["object-group BA"], ("group", "BA")))
               + ext("L", "deny", *P("ip"), (["object AB"], ("object", "AB")), (["object-group B"], ("group", "B")))
               + ext("L", "deny", *P("ip"), (["host NN"], ("named", "NN")), (["N 255.255.0.0"], ("namednet", "N", "255.255.0.0"))))
