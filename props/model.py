"""Obligations over the object model: C01-C06, C08-C10, C22, C24, C25 (part), C29."""
from sa.core import *
from sa.dd import *
from sa.run import Case


def st(n):
    return sym(n, ty="str")


def ip(n, **k):
    return sym(n, ty="str", ipok=True, **k)


def px(n):
    return sym(n, ty="str", prefixok=True)


def kinds(p):
    """abstract address of every kind, with symbols prefixed p"""
    h = ("host", ip(p + "h"))
    n = ("net", ip(p + "a"), px(p + "m"))
    return {
        "host": h, "net": n, "wild": ("wild", ip(p + "w", fam=4), ip(p + "wm", fam=4)),
        "any": ("any",), "any4": ("any4",), "any6": ("any6",), "iface": ("iface", st(p + "i")),
        "ohost": ("ohost", st(p + "n"), ip(p + "oh")),
        "osubnet": ("osubnet", st(p + "n"), ip(p + "oa"), px(p + "om")),
        "orange": ("orange", st(p + "n"), ip(p + "r1"), ip(p + "r2")),
        "ofqdn": ("ofqdn", st(p + "n"), st(p + "f"), None),
        "ofqdn4": ("ofqdn", st(p + "n"), st(p + "f"), "v4"),
        "ofqdn6": ("ofqdn", st(p + "n"), st(p + "f"), "v6"),
        "onone": ("onone", st(p + "n")),
    }


def groups(p):
    k = kinds(p)
    k2 = kinds(p + "2")
    return {
        "group()": ("group",),
        "group(host)": ("group", k["host"]),
        "group(net,host)": ("group", k["net"], k["host"]),
        "group(any4,ohost)": ("group", k["any4"], k["ohost"]),
        "group(any6,net)": ("group", k["any6"], k["net"]),
        "group(host,any)": ("group", k["host"], k["any"]),
        "group(host,group(net))": ("group", k["host"], ("group", k["net"])),
        "group(group(group(osubnet)),host)": ("group", ("group", ("group", k["osubnet"])), k["host"]),
        "group(net,group(any4,any6))": ("group", k["net"], ("group", k["any4"], k["any6"])),
        "group(group(any),orange)": ("group", ("group", k["any"]), k["orange"]),
        "object(host,net)": ("objof", k["host"], k2["net"]),
    }


EMPTY = {"onone", "group()"}
EVERY = {"any", "iface", "ofqdn", "group(host,any)", "group(group(any),orange)"}
QUERY = {"ANY": ("ANY",), "ANY4": ("ANY4",), "ANY6": ("ANY6",)}


def pairs(tier):
    a, b = kinds("x"), kinds("y")
    a.update(groups("x"))
    b.update(groups("y"))
    r = []
    for i in a:
        for j in b:
            if (i in EMPTY and j in EVERY) or (j in EMPTY and i in EVERY):
                continue        # an empty collection against everything: no fixed answer
            r.append((i, j, a[i], b[j]))
    return r


def c01(tier):
    for i, j, a, b in pairs(tier):
        yield Case("answers %s & %s" % (i, j), "answers", (a, b))
        if list(kinds("x")) .index(i) <= list(kinds("y")).index(j) if i in kinds("x") and j in kinds("y") else i <= j:
            yield Case("symmetric %s & %s" % (i, j), "symmetric", (a, b))
    b = kinds("y")
    b.update(groups("y"))
    for q in QUERY:
        for j in b:
            yield Case("answers %s & %s" % (q, j), "answers", (QUERY[q], b[j]))


def c02(tier):
    for i, j, a, b in pairs(tier):
        yield Case("%s & %s" % (i, j), "both", (a, b))
    b = kinds("y")
    b.update(groups("y"))
    for q in QUERY:
        for j in b:
            yield Case("%s & %s" % (q, j), "both", (QUERY[q], b[j]))


IDS = {"none": None, "empty": "", "name": "NAME", "pattern": "/PATTERN/", "slash": "/", "slashes": "//"}


def ids(p):
    return {"none": None, "name": st(p + "id"), "empty": "", "slash": "/", "slashes": "//", "literal": "acl-in",
            "pattern": "/acl-*/", "opened": "/acl-in", "closed": "acl-in/", "upper": "ACL-in"}


def c03(tier):
    a, b = kinds("x"), kinds("y")
    a2, b2 = kinds("u"), kinds("v")
    for i, x in ids("q").items():
        for j, y in ids("r").items():
            if "slashes" in (i, j) or "slash" in (i, j):
                if i != j and "none" not in (i, j) and "literal" not in (i, j):
                    continue
            yield Case("id %s/%s" % (i, j), "rule_match", ((x, a["host"], a2["host"]), (y, b["host"], b2["host"])))
    for i in ("host", "net", "wild", "any", "any4", "any6"):
        for j in ("host", "net", "wild", "any4", "any6", "iface", "ohost", "orange", "any"):
            yield Case("src %s/%s" % (i, j), "rule_match",
                       ((st("qid"), a[i], a2["any"]), (st("rid"), b[j], b2["any"])))
            yield Case("dst %s/%s" % (i, j), "rule_match",
                       ((st("qid"), a["any"], a2[i]), (st("rid"), b["any"], b2[j])))
    ga, gb = groups("x"), groups("y")
    for j in gb:
        yield Case("both %s" % j, "rule_match", ((None, a["net"], a2["host"]), (None, gb[j], groups("v")[j])))
        yield Case("criterion %s" % j, "rule_match", ((None, ga[j], a2["host"]), (None, b["net"], b2["net"])))
    for q in QUERY:
        for j in ("any", "any4", "any6", "host"):
            yield Case("exact %s/%s" % (q, j), "rule_match", ((None, QUERY[q], a2["any"]), (None, b[j], b2["net"])))
            yield Case("exact %s/%s dst" % (q, j), "rule_match", ((None, a2["any"], QUERY[q]), (None, b["net"], b[j])))
    yield Case("other fields do not matter", "full_match", (fullrule("x"), fullrule("y")))
    for i in ("host", "net", "any", "ohost"):
        yield Case("node %s" % i, "node_match", (a["net"], b[i]))


def fullrule(p, src="host", dst="net"):
    k = kinds(p)
    return (st(p + "id"), k[src], k[dst]) + tuple(st(p + "f%d" % i) for i in range(14))


def nat_cases():
    n = kinds("n")
    o = groups("m")
    none = ("none",)
    rs = {"-": None, "host": n["host"], "net": n["net"], "empty": none}
    rd = {"-": None, "any": ("any",), "osubnet": n["osubnet"], "empty": none}
    ms = {"-": None, "host": kinds("s")["host"], "empty": none, "group": ("group", kinds("s")["net"])}
    md = {"-": None, "ohost": kinds("d")["ohost"], "empty": none, "group": ("group", kinds("d")["host"])}
    for a in rs:
        for b in rd:
            for c in ms:
                for d in md:
                    yield "%s,%s->%s,%s" % (a, b, c, d), (rs[a], rd[b], ms[c], md[d], st("ndesc"), {})


def c04(tier):
    k = kinds("q")
    q1 = (st("qid"), k["host"], k["net"])
    q2 = (None, ("any",), k["host"])
    for name, d in nat_cases():
        d = d[:5] + (None,)
        yield Case("host/net %s" % name, "nat_match", (q1, d))
        yield Case("any/host %s" % name, "nat_match", (q2, d))
    for name, d in list(nat_cases())[::7]:
        d = d[:5] + (None,)
        yield Case("direct %s" % name, "nat_match_direct", (d, q1) if False else (q1, d))
        yield Case("exact %s" % name, "nat_match", ((None, ("ANY",), ("any",)), d))


ALIAS = ("ACLRule", "NATObject")


def somerules(p, n=3, options=False):
    r = []
    for i in range(n):
        k = kinds("%s%d" % (p, i))
        r.append((st("%sid%d" % (p, i)), k[("host", "net", "any4", "wild")[i % 4]], k[("net", "any", "host")[i % 3]]) + ((st("%sopt%d" % (p, i)),) if options else ()))
    return tuple(r)


def somenats(p, n=1, options=False):
    r = []
    for i in range(n):
        k = kinds("%sn%d" % (p, i))
        # one option, whichever
        r.append((k["host"], None, k["net"], None, None, (st("%sn%dopt" % (p, i)),) if options else None))
    return tuple(r)


def crit(p, src="net", dst="host", rid=True):
    k = kinds(p)
    return (st(p + "id") if rid else None, k[src], k[dst])


def c05(tier):
    for nq in (0, 1, 2, 3):
        for nr in (0, 1, 2, 3):
            qs = tuple(crit("q%d" % i, rid=i == 0) for i in range(nq))
            yield Case("rules %d criteria %d rules" % (nq, nr), "rules_filter", (qs, somerules("r", nr)), identity=ALIAS)
    q = crit("q")
    for nr in (0, 1, 2, 3):
        for nn in (0, 1, 2):
            for na in (0, 1):
                yield Case("config %d rules %d nat %d auto" % (nr, nn, na), "config_filter",
                           (q, somerules("r", nr, True), somenats("n", nn, True), somenats("a", na, True)),
                           identity=ALIAS)
    yield Case("config sections", "config_sections", (q, somenats("n", 1), somenats("a", 1), somenats("z", 2)),
               identity=ALIAS)
    yield Case("nested block", "config_filter_expr", (("block", ("rule",) + q), somerules("r", 2), somenats("n", 1)),
               identity=ALIAS)
    for op in ("union", "intersect", "except"):
        e = (op, ("rule",) + crit("q"), ("rule",) + crit("p", rid=False))
        yield Case("config %s" % op, "config_filter_expr", (e, somerules("r", 2), somenats("n", 1)), identity=ALIAS)


def c06_model(tier):
    A = ("rule",) + crit("a")
    B = ("rule",) + crit("b", "host", "any")
    D = ("rule",) + crit("d", "any4", "net", rid=False)
    rs = somerules("r", 2)
    for o in ("union", "intersect", "except"):
        yield Case("run %s" % o, "run_expr", ((o, A, B), rs), identity=ALIAS)
        yield Case("run %s of blocks" % o, "run_expr", ((o, ("block", A), ("block", B)), rs), identity=ALIAS)
        yield Case("run %s same" % o, "run_expr", ((o, A, A), rs), identity=ALIAS)
        for p in ("union", "intersect", "except"):
            yield Case("run (a %s b) %s c" % (p, o), "run_expr", ((o, (p, A, B), D), rs), identity=ALIAS)
            yield Case("run a %s (b %s c)" % (o, p), "run_expr", ((o, A, ("block", (p, B, D))), rs), identity=ALIAS)


def c08(tier):
    a, b = kinds("x"), kinds("y")
    a.update(groups("x"))
    b.update(groups("y"))
    for i in a:
        for j in b:
            if (i in EMPTY and j in EVERY) or (j in EMPTY and i in EVERY):
                continue
            if tier == "quick" and hash_of(i + j) % 3 and not (i.startswith("g") or j.startswith("g")):
                pass
            yield Case("match %s & %s" % (i, j), "twice_same", (a[i], b[j]))
    for q in QUERY:
        for j in b:
            yield Case("match %s & %s" % (q, j), "twice_same", (QUERY[q], b[j]))
    yield Case("rules and criterion", "match_keeps", (fullrule("x"), fullrule("y"), somenats("n")[0]))
    yield Case("rules and group", "match_keeps",
               (fullrule("x"), (st("yid"), groups("y")["group(host,group(net))"], kinds("y")["ohost"]) + fullrule("y")[3:],
                somenats("n")[0]))
    A = ("rule",) + crit("a")
    B = ("rule",) + crit("b", "host", "any")
    for o in ("union", "intersect", "except"):
        yield Case("run %s twice" % o, "run_twice", ((o, A, B), somerules("r", 2), somenats("n", 1)), identity=ALIAS)
    yield Case("run rule twice", "run_twice", (A, somerules("r", 2), somenats("n", 2)), identity=ALIAS)
    yield Case("run nested twice", "run_twice", (("except", ("union", A, B), ("block", B)), somerules("r", 1), ()),
               identity=ALIAS)
    for n, g in group_cases():
        yield Case("expand copy %s" % n, "expand_keeps", (g,))
        if not n.startswith("icmp"):
            yield Case("sort copy %s" % n, "sort_keeps", (g,))
        if n.startswith("network"):
            yield Case("collapse copy %s" % n, "collapse_keeps", (g,))
    for n, x in resolve_addrs().items():
        yield Case("closure %s" % n, "resolve_keeps", (st("rid"), ("proto", st("pr")), x, ("any",), st("rid")))
    yield Case("closure of group", "resolve_keeps",
               ("acl", ("sub", ("protocol", st("pg"), None, None, (("proto", st("p1")),))), ("any",), ("any",), None))
    # an answer is about the configuration as it is, whatever was asked of it before
    g, x, y = groups("cg"), kinds("cx"), kinds("cy")
    q = (None, x["net"], ("any",))
    for how in ("member", "nested", "inner", "expand"):
        for n in ("group()", "group(host)", "group(host,group(net))"):
            yield Case("asked, %s changed (%s), asked" % (how, n), "match_changed", (q, (st("cid"), g[n], y["net"]), y["host"], how))
    yield Case("asked, criterion changed, asked", "match_changed", ((None, g["group(host)"], ("any",)), (st("cid"), y["host"], y["net"]), y["net"], "criterion"))
    for how in ("host", "node"):
        yield Case("asked, %s replaced, asked" % how, "match_changed", ((None, x["net"], x["host"]), (st("cid"), y["host"], y["net"]), x["ohost"], how))
    yield Case("asked, list renamed, asked", "match_changed", ((st("cq"), x["net"], ("any",)), (st("cid"), y["host"], ("any",)), st("cid2"), "id"))
    yield Case("asked, object extended, asked", "match_changed", ((None, x["host"], ("any",)), (st("cid"), y["ohost"], ("any",)), x["host"], "addresses"))
    A, B = ("rule",) + crit("ca"), ("rule",) + crit("cb", "host", "any")
    for n, e in {"rule": A, "except": ("except", A, B), "union": ("union", A, B)}.items():
        for how in ("add", "drop", "other", "id"):
            yield Case("filtered by %s, rules %s, filtered" % (n, how), "filter_changed", (e, somerules("cr", 2), crit("cm", "net", "any"), how, ()), identity=ALIAS)
            yield Case("run %s, rules %s, run" % (n, how), "run_changed", (e, somerules("cr", 2), crit("cm", "net", "any"), how), identity=ALIAS)
        for how in ("nat", "late nat", "no nat", "nat side"):
            yield Case("filtered by %s, %s, filtered" % (n, how), "filter_changed", (e, somerules("cr", 1), crit("cm", "net", "any"), how, somenats("cn", 2)), identity=ALIAS)
    for how in ("member", "binding", "protocol", "dst"):
        yield Case("closure, %s changed, closure" % how, "closure_changed",
                   (("network", "g", None, None, (x["host"], ("sub", ("network", "h", None, None, (x["net"],))))), y["osubnet"], how))
    for k, a, b in (("network", x["host"], y["net"]), ("port", ("port", "eq", st("p1")), ("ports", "1", "2")), ("protocol", ("proto", st("p1")), ("proto", st("p2"))),
                    ("icmp", ("icmp", st("p1"), None), ("icmp", st("p2"), None)),
                    ("service", ("svc", st("p1"), None, None, None, None), ("svc", st("p2"), None, None, None, None))):
        for w in ("member", "inner"):
            pr = "tcp" if k == "port" else None
            yield Case("expanded, %s of a %s group added, expanded" % (w, k), "expand_changed",
                       ((k, "o", None, pr, (a, ("sub", (k, "i", None, pr, (a,))))), b, w))
    everything = (
        ("network", "on1", st("od"), ip("oa")), ("auto", "on2", ip("ob")), ("service", "svc", st("sd"), "tcp"),
        ("name", "hn", ip("hi"), None), ("timerange", "tr"),
        ("group", ("network", "gn", st("gd"), None, (kinds("g")["host"], ("sub", ("network", "gn2", None, None, (kinds("h")["net"],)))))),
        ("group", ("port", "gp", None, "tcp", (("port", "eq", "80"), ("ports", "1", "2")))),
        ("group", ("protocol", "gr", None, None, (("proto", "tcp"),))), ("group", ("icmp", "gi", None, None, (("icmp", "8", "0"),))),
        ("group", ("service", "gs", None, None, (("svc", "tcp", None, None, None, None),))),
        ("bound", "e0", "list", "in"), ("named", "e1", "outside"), ("binding", "outside", "list", "out"),
        ("rule", "list", kinds("r")["host"], groups("q")["group(host,group(net))"]), ("rule", st("id2"), ("any",), kinds("s")["net"]),
        ("nat", ip("n1"), None), ("nat", ip("n2"), "after-auto"), ("nat", ip("n3"), "dns"), ("auto", "on3", ip("oc")),
        ("nat", ip("n4"), "after-object"))
    C = ("rule", "list") + crit("c", "host", "any")[1:]
    D = ("rule", None) + crit("d", "any", "net")[1:]
    for n, e in {"rule": C, "free rule": D, "union": ("union", C, D), "except": ("except", D, C), "intersect": ("intersect", D, C)}.items():
        yield Case("everything, %s twice" % n, "filter_leaves", (everything, e), identity=ALIAS)
    yield Case("everything, question, closure, question", "question_leaves", (everything, C), identity=ALIAS)
    for n, w in {"nothing": ((), (), (), ()), "rules": ((0, 1), (), (), ()), "nat": ((), (0, 1), (0, 1), (0, 1)), "all": ((0, 1), (0, 1), (0, 1), (0, 1))}.items():
        yield Case("everything, closure of %s" % n, "closure_leaves", (everything, w), identity=ALIAS)


def hash_of(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


def group_cases():
    k = kinds("g")
    k2 = kinds("h")
    nm, d = "outer", st("gdesc")

    def N(*m):
        return ("network", nm, d, None, m)

    def subn(name, *m):
        return ("sub", ("network", name, st("sdesc"), None, m))
    yield "network empty", N()
    yield "network hosts", N(k["host"], k2["host"])
    yield "network mixed", N(k["host"], k["net"], ("any4",), k2["net"])
    yield "network nested", N(k["host"], subn("in1", k["net"], k2["host"]), k2["net"])
    yield "network deep", N(subn("in1", subn("in2", k["host"], subn("in3", k["net"])), ("any6",)), ("any",))
    yield "network twice nested", N(subn("in1", k["host"]), subn("in2", k["net"]), subn("in3"), k2["host"])
    yield "network objects", N(("ohost", "on1", ip("o1")), k["host"], ("osubnet", "on2", ip("o2"), px("o2m")),
                               subn("in1", ("orange", "on3", ip("o3"), ip("o4"))))
    yield "network fqdn", N(("ofqdn", "on1", st("fq"), None), ("ofqdn", "on2", st("fq2"), "v4"), ("onone", "on3"))

    def port(x):
        return ("port", "eq", st(x))

    def ports(x):
        return ("ports", "1000", "2000")

    def P(*m):
        return ("port", nm, d, st("gproto"), m)

    def subp(name, *m):
        return ("sub", ("port", name, st("sdesc"), st("sproto"), m))
    yield "port plain", P(("port", "eq", "80"), ("ports", "1000", "2000"), ("port", "lt", "1024"))
    yield "port nested", P(("port", "eq", "80"), subp("in1", ("ports", "1000", "2000"), subp("in2", ("port", "neq", "25"))),
                           ("port", "gt", "443"))
    yield "port empty", P()

    def S(*m):
        return ("service", nm, d, None, m)

    def svc(p, s=None, t=None, it=None, ic=None):
        return ("svc", p, s, t, it, ic)

    def osvc(p, s, t, it, ic, n):
        return ("osvc", p, s, t, it, ic, n, st("odesc"))

    def subs(name, *m):
        return ("sub", ("service", name, st("sdesc"), None, m))
    yield "service plain", S(svc("tcp", None, ("port", "eq", "80")), svc("udp", ("ports", "1", "2"), None))
    yield "service objects", S(osvc("tcp", ("port", "eq", "1"), ("port", "eq", "2"), None, None, "sn1"),
                               svc("icmp", None, None, "8", "0"), osvc("icmp", None, None, "3", "1", "sn2"))
    yield "service nested", S(svc("tcp", None, ("port", "eq", "80")),
                              subs("in1", osvc("udp", ("port", "gt", "5"), ("ports", "7", "9"), None, None, "sn1"),
                                   subs("in2", svc("icmp6", None, None, "1", "4")), svc("gre")))
    yield "service empty", S()
    yield "protocol plain", ("protocol", nm, d, None, (("proto", "tcp"), ("proto", "17")))
    yield "protocol nested", ("protocol", nm, d, None, (
        ("proto", "tcp"), ("sub", ("protocol", "in1", st("sdesc"), None, (
            ("proto", "udp"), ("sub", ("protocol", "in2", None, None, (("proto", "50"),)))))), ("proto", "gre")))
    yield "icmp plain", ("icmp", nm, d, None, (("icmp", st("it"), st("ic")), ("icmp", st("it2"), None)))
    yield "icmp nested", ("icmp", nm, d, None, (
        ("icmp", st("it"), st("ic")), ("sub", ("icmp", "in1", st("sdesc"), None, (
            ("icmp", st("it3"), None), ("sub", ("icmp", "in2", None, None, (("icmp", st("it4"), None),)))))),
        ("icmp", st("it2"), None)))


def few_members():
    """per family: a leaf, another leaf"""
    k = kinds("g")
    yield "network", (k["host"], k["net"], ("ohost", "on1", ip("o1")))
    yield "port", (("port", "eq", "80"), ("ports", "1000", "2000"), ("port", "gt", "443"))
    yield "service", (("svc", "tcp", None, ("port", "eq", "80"), None, None), ("svc", "gre", None, None, None, None),
                      ("osvc", "icmp", None, None, "3", "1", "sn2", st("odesc")))
    yield "protocol", (("proto", "tcp"), ("proto", "17"), ("proto", "gre"))
    yield "icmp", (("icmp", st("it"), st("ic")), ("icmp", st("it2"), None), ("icmp", st("it3"), None))


def small_groups():
    """groups with one member or none, down to four levels; the same member, the same subgroup twice"""
    d = st("gdesc")
    for f, (a, b, o) in few_members():
        pr = st("gproto") if f == "port" else None

        def G(*m):
            return (f, "outer", d, pr, m)

        def S(n, *m):
            return ("sub", (f, n, st("sdesc"), pr, m))
        yield "%s one" % f, G(a)
        yield "%s one object" % f, G(o)
        yield "%s one nested" % f, G(S("in1", a))
        yield "%s one nested object" % f, G(S("in1", o))
        yield "%s one deep" % f, G(S("in1", S("in2", S("in3", b))))
        yield "%s nested empty" % f, G(S("in1"))
        yield "%s deep empty" % f, G(S("in1", S("in2", S("in3"))), S("in4"))
        yield "%s member twice" % f, G(a, b, a)
        yield "%s member inside and outside" % f, G(a, S("in1", b, a), b)
        yield "%s subgroup twice" % f, G(S("in1", a, o), b, S("in1", a, o))
        yield "%s subgroup named as its group" % f, G(b, S("outer", a), S("outer", S("outer", o)))
        yield "%s first nested" % f, G(S("in1", a), b)
        yield "%s last nested" % f, G(b, o, S("in1", a))
        yield "%s five levels" % f, G(S("in1", S("in2", a, S("in3", S("in4", o), b)), a), b)


def c09(tier):
    for n, g in small_groups():
        yield Case("in place %s" % n, "expand_in_place", (g,))
        yield Case("copy %s" % n, "expand_copy", (g,))
        yield Case("configuration with %s" % n, "expand_config", ((g,),))
    for f, (a, b, o) in few_members():
        for order in (False, True):
            for depth in (1, 2, 3):
                yield Case("%s groups sharing a subgroup, %d deep%s" % (f, depth, ", defined after" if order else ""),
                           "expand_shared", (f, st("gproto") if f == "port" else None, (a, b, o), depth, order))
    for n, g in group_cases():
        yield Case("in place %s" % n, "expand_in_place", (g,))
        yield Case("copy %s" % n, "expand_copy", (g,))
    gs = tuple(renamed(g, "cfg%d" % i) for i, (n, g) in enumerate(group_cases()) if "nested" in n or "objects" in n)
    yield Case("configuration", "expand_config", (gs,))
    for n, g in group_cases():
        yield Case("configuration with %s" % n, "expand_config", ((g,),))


def renamed(g, n):
    return (g[0], n) + g[2:]


def c29(tier):
    for n, g in group_cases():
        if g[0] == "icmp":
            continue
        if g[0] == "network":
            yield Case("collapse %s" % n, "collapse_bag", (g,))
        yield Case("sort copy %s" % n, "sort_copy_bag", (g,))
        yield Case("sort %s" % n, "sorted_members", (g,))
    k = kinds("g")
    yield Case("collapse in place", "collapse_in_place_bag", (("network", "o", st("d"), None, (k["net"], kinds("h")["net"])),))
    h, nm = kinds("h"), (st("hn"), ip("hna"), st("hnd"))
    named = {"host": ("named", k["host"], nm), "net": ("named", k["net"], nm)}
    for n, x in named.items():
        for m, y in dict(h, **{"named host": ("named", h["host"], nm), "any": ("any",)}).items():
            if m in ("host", "net", "named host", "any"):
                for a, b in ((x, y), (y, x)):
                    g = ("network", "o", st("d"), None, (a, b))
                    yield Case("collapse named %s, %s %s" % (n, m, a is x), "collapse_bag", (g,))
                    yield Case("sort named %s, %s %s" % (n, m, a is x), "sorted_members", (g,))
    for n, x in dict(named, any=("any",), host=k["host"], net=k["net"], any4=("any4",), any6=("any6",)).items():
        for i in range(3):
            l = [h["host"], h["net"]]
            l.insert(i, x)
            g = ("network", "o", st("d"), None, tuple(l))
            yield Case("collapse %s at %d" % (n, i), "collapse_bag", (g,))
            yield Case("sort copy %s at %d" % (n, i), "sort_copy_bag", (g,))
            yield Case("sort %s at %d" % (n, i), "sorted_members", (g,))


def resolve_addrs():
    k = kinds("z")
    nm = (st("hn"), ip("hna"), st("hnd"))
    return {
        "host": k["host"], "net": k["net"], "named host": ("named", k["host"], nm), "named net": ("named", k["net"], nm),
        "any": ("any",), "any4": ("any4",), "any6": ("any6",), "iface": k["iface"], "wild": k["wild"],
        "ohost": k["ohost"], "osubnet": k["osubnet"],
        "group": ("groupn", "zg", k["host"], ("named", k["net"], nm)),
        "group nested": ("groupn", "zg", ("groupn", "zg2", ("named", k["host"], nm), ("groupn", "zg3", k["ohost"])), k["net"]),
        "group empty": ("groupn", "zg"),
    }


def c10(tier):
    P = ("proto", st("pr"))
    for n, x in resolve_addrs().items():
        yield Case("src %s" % n, "resolve_rule", (st("rid"), P, x, None, ("any",), None, None, None, False), identity=ALIAS)
        yield Case("dst %s" % n, "resolve_rule", (st("rid"), P, ("any",), None, x, None, None, None, False), identity=ALIAS)
        for slot in range(4):
            a = [None] * 4
            a[slot] = x
            if x[0] in ("any4", "any6") or slot == 3 and x[0] not in ("any", "iface", "ohost", "osubnet", "groupn"):
                continue
            if slot == 2 and x[0] in ("wild",):
                continue
            yield Case("nat %d %s" % (slot, n), "resolve_nat", (a[0], a[1], a[2], a[3], None, None), identity=ALIAS)
        if n not in ("any4", "any6", "wild"):
            yield Case("mixed %s" % n, "resolve_mixed", (st("rid"), x, x if False else ("any",), None), identity=ALIAS)
    ports = {"port": ("port", "eq", st("po")), "range": ("ports", "1", "2"),
             "group": ("sub", ("port", "pg", None, "tcp", (("port", "eq", st("po2")), ("sub", ("port", "pg2", None, "tcp", (("ports", "5", "6"),)))))),
             "none": None}
    for n, x in ports.items():
        yield Case("sport %s" % n, "resolve_rule", (st("rid"), P, ("any",), x, ("any",), None, None, None, False), identity=ALIAS)
        yield Case("dport %s" % n, "resolve_rule", (st("rid"), P, ("any",), None, ("any",), x, None, None, False), identity=ALIAS)
    prots = {
        "protocol": ("proto", "tcp"), "icmp": ("proto", "icmp"), "icmp6": ("proto", "icmp6"),
        "group": ("sub", ("protocol", st("prn"), None, None, (("proto", st("p1")), ("sub", ("protocol", st("prn2"), None, None, (("proto", st("p2")),)))))),
        "services": ("sub", ("service", st("prn"), None, None, (("svc", "tcp", None, None, None, None), ("osvc", "udp", None, None, None, None, "so", None)))),
        "service": ("osvc", "udp", None, None, None, None, "so", None),
    }
    for n, x in prots.items():
        for m, y in (("-", None), ("icmp", ("icmp", st("it"), st("ic"))),
                     ("icmp group", ("sub", ("icmp", st("ign"), None, None, (("icmp", st("i1"), None), ("sub", ("icmp", "ig2", None, None, (("icmp", st("i2"), None),)))))))):
            if n == "service" :
                continue
            yield Case("protocol %s %s" % (n, m), "resolve_rule", (st("rid"), x, ("any",), None, ("any",), None, y, None, False),
                       identity=ALIAS)
    for b in (st("bound"), "acl"):
        for t in (False, True):
            yield Case("bound %s %s" % (show_leaf(b.leaf) if isinstance(b, Node) else b, t), "resolve_rule",
                       ("acl", P, ("any",), None, ("any",), None, None, b, t), identity=ALIAS)
    deep = ("groupn", "deep1", ("host", ip("d1")), ("groupn", "deep2", ("ohost", st("do"), ip("d2")), ("groupn", "deep3", ("host", ip("d3")))))
    for t in (False, True):
        yield Case("bound, nested groups %s" % t, "resolve_rule",
                   ("acl", ("sub", ("protocol", "dp1", None, None, (("sub", ("protocol", "dp2", None, None, (("proto", st("p2")),))),))), deep, None,
                    ("ohost", st("dn"), ip("d4")), ("sub", ("port", "pg", None, "tcp", (("sub", ("port", "pg2", None, "tcp", (("ports", "5", "6"),))),))),
                    None, "acl", t), identity=ALIAS)
    for t in (st("opt"), "inactive"):
        yield Case("time range and option %s" % (t if t == "inactive" else "any"), "resolve_rule",
                   (st("rid"), P, ("any",), None, ("any",), None, None, None, t), identity=ALIAS)
    yield Case("bound same", "resolve_rule", (st("bound"), P, ("any",), None, ("any",), None, None, st("bound"), True), identity=ALIAS)
    sv = ("osvc", "udp", None, ("port", "eq", "1"), None, None, "so", None)
    yield Case("nat real service", "resolve_nat", (kinds("z")["host"], None, ("any",), None, sv, None), identity=ALIAS)
    yield Case("nat mapped service", "resolve_nat", (kinds("z")["host"], None, ("any",), None, None, sv), identity=ALIAS)
    yield Case("nat services", "resolve_nat", (kinds("z")["host"], ("any",), ("any",), ("any",), sv, sv), identity=ALIAS)
    hs = [("host", ip("nx%d" % i)) for i in range(4)]
    obs = [("ohost", st("no%d" % i), ip("nx%d" % i)) for i in range(4)]
    for which in range(16):
        for kind, xs in (("hosts", hs), ("objects", obs)):
            a = [xs[i] if which >> i & 1 else None for i in range(4)]
            for s in range(4):
                yield Case("nat of %s %s services %d" % (kind, format(which, "04b"), s), "resolve_nat",
                           (a[0], a[1], a[2], a[3], sv if s & 1 else None, ("osvc", "tcp", ("port", "eq", "2"), None, None, None, "so2", None) if s & 2 else None), identity=ALIAS)
    every = [("proto", "icmp"), ("ohost", "ro1", ip("e1")), ("port", "eq", st("e2")), ("groupn", "rg", ("host", ip("e3"))), ("ports", "1", "2"), ("icmp", st("e4"), st("e5")), "acl", True]
    for which in range(32):
        a = [x if which >> i & 1 else y for i, (x, y) in enumerate(zip((every[2], every[4], every[5], every[6], every[7]), (None, None, None, None, False)))]
        for p in ("icmp", "tcp"):
            yield Case("rule with %s of %s" % (format(which, "05b"), p), "resolve_rule",
                       ("acl", ("proto", p), every[1], a[0], every[3], a[1], a[2], a[3], a[4]), identity=ALIAS)
    yield Case("nat interface keyword", "resolve_nat", (kinds("z")["host"], None, ("interfacekw",), None, None, None), identity=ALIAS)


def c22(tier):
    k = kinds("c")
    R = lambda i: ("rule", st("id%d" % i), ("any",), ("host", ip("rh%d" % i)))
    O = lambda i: ("network", "net%d" % i, st("nd%d" % i), ip("na%d" % i))
    G = lambda kind, i: ("group", (kind, "g%s%d" % (kind, i), st("gd%d" % i), "tcp", ()))
    one = {
        "rule": R(1), "name": ("name", st("hn"), ip("hi"), st("hd")), "interface": ("interface", st("ia")),
        "bound interface": ("bound", st("ia"), st("la"), "in"),
        "time range": ("timerange", st("tn")), "network object": ("network", st("on"), st("od"), ip("oa")),
        "auto nat object": ("auto", st("on"), ip("oa")),
        "service object": ("service", st("sn"), st("sd"), st("sp")), "version": ("version", st("ver")),
        "nat": ("nat", ip("ni"), None), "nat after-auto": ("nat", ip("ni"), "after-auto"),
        "nat after-object": ("nat", ip("ni"), "after-object"), "nat dns": ("nat", ip("ni"), "dns"),
        "binding": ("binding", "outside", st("la"), "in"), "other": ("other", st("text")), "nothing": ("other", None),
    }
    for g in ("network", "service", "protocol", "icmp", "port"):
        one["%s group" % g] = ("group", (g, st("gn"), st("gd"), "tcp", ()))
    for n, x in one.items():
        yield Case("one %s" % n, "collect", ((x,),), identity=ALIAS)
        yield Case("left of %s" % n, "collect_left", ((x, ("other", "rest")),))
    for n, x in one.items():
        for m, y in one.items():
            yield Case("%s then %s" % (n, m), "collect", ((x, other(y)),), identity=ALIAS)
    yield Case("rules in order", "collect", ((R(1), R(2), ("name", "a", ip("hi"), None), R(3)),), identity=ALIAS)
    yield Case("first network object kept", "collect", ((O(1), ("network", "net1", "second", "10.0.0.1"), O(2)),))
    yield Case("names in order", "collect", ((("name", "a", "10.0.0.1", None), ("name", "b", "10.0.0.2", st("d"))),))
    yield Case("nat sections in order", "collect", ((
        ("nat", ip("n1"), None), ("nat", ip("n2"), "after-auto"), ("auto", "o1", ip("o1")), ("nat", ip("n3"), "dns"),
        ("auto", "o2", ip("o2")), ("nat", ip("n4"), "after-object")),), identity=ALIAS)
    yield Case("binding of a named interface", "collect", ((
        ("named", "e0", "inside"), ("named", "e1", "outside"), ("binding", "outside", st("la"), "in"),
        ("binding", "inside", st("lb"), "out")),))
    yield Case("two bindings of one list", "collect", ((
        ("named", "e0", "inside"), ("named", "e1", "outside"), ("binding", "outside", "list", "in"),
        ("binding", "inside", "list", "in")),))
    yield Case("bindings on interfaces", "collect", ((
        ("bound", "e0", "list", "in"), ("bound", "e1", "list", "out"), ("bound", "e2", st("x"), "in")),))
    for g in ("network", "service", "protocol", "icmp", "port"):
        yield Case("two %s groups" % g, "collect", ((G(g, 1), G(g, 2), ("group", (g, "gx", None, "tcp", ()))),))
    yield Case("name of the configuration", "qualified", ((), st("h"), st("d")))
    yield Case("same name in every family", "collect", (tuple(
        ("group", (g, "same", None, "tcp", ())) for g in ("network", "service", "protocol", "icmp", "port")) + (
        ("network", "same", None, "10.0.0.1"), ("service", "same", None, "tcp"), ("timerange", "same")),))


def other(x):
    """the same kind with other symbols"""
    def f(v):
        if isinstance(v, Node) and v.leaf[0] == "t":
            t = v.leaf
            name = show_leaf(t).strip("<>") + "_2"
            return ip(name) if tag(t, "ipok") else st(name)
        if isinstance(v, tuple):
            return tuple(f(i) for i in v)
        return v
    return f(x)


KINDS = ["none", "str", "int", "list", "dict", "protocol", "protocolgroup", "service", "serviceobject", "servicegroup",
         "icmp", "icmpgroup", "port", "portrange", "portgroup", "networkgroup", "name", "timerange", "absolute",
         "periodic", "vlan", "vlanrange", "rule", "node", "natobject", "natreal", "natmapped", "natrealnode",
         "natmappedsource", "natmappeddestination", "interfacekw", "ifaceobject", "options", "true", "block", "op",
         "rules", "host", "net", "wild", "any", "any4", "any6", "iface", "web", "ohost", "ANY", "ANY4", "ANY6"]
CONTAINERS = ["names", "networkgroup", "servicegroup", "protocolgroup", "icmpgroup", "portgroup", "portgroup protocol",
              "timerange", "vlans", "node host", "node port", "rule protocol", "rule src", "rule dst",
              "service protocol", "serviceobject protocol", "nat real", "nat mapped", "mapped src", "mapped dst",
              "mapped source node", "mapped destination node", "host name", "network name", "block", "op left",
              "op right", "options trace"]


def c24(tier):
    for c in CONTAINERS:
        for k in KINDS:
            yield Case("%s of %s" % (c, k), "construct", (c, k))
    yield Case("own collections", "own_collections")
    yield Case("own configuration", "own_config")
    f = fullrule("x") + (ip("n1"), st("n2"), "dns", True)
    yield Case("slots of rules", "full_rule", (f,))


def c25_model(tier):
    names = ["aol", "domain", "echo", "sunrpc", "http", "https", "www", "syslog", "cmd", "exec", "biff", "talk", "echo-reply",
             "kerberos", "radius", "ssh", "smtp", "snmp", "tftp", "time", "traceroute", "", "ECHO", "rpc", "unreachable",
             "redirect", "ntp", "pim-auto-rp", "netbios-ssn", "netbios-ns", "tacacs", "discard", "isakmp", "rip", "who"]
    for n in names:
        for p in (None, "tcp", "TCP", "Udp", "icmp", "", "sctp"):
            yield Case("service %s/%s" % (n, p), "service_port", (n, p))
        yield Case("service %s/any letter case" % n, "service_port", (n, sym("proto", ty="str")))
    yield Case("any service", "service_port_any", (sym("svc", ty="str"),))
    for p in ("tcp", "UDP", "icmp"):
        yield Case("any service of %s" % p, "service_port", (sym("svc", ty="str"), p))
