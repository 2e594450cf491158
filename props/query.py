"""Obligations over query texts: C06, C07."""
import itertools

from . import model
from .text import *

ALIAS = model.ALIAS
IDPAT = ("[A-Z][A-Z0-9]{1,6}_[A-Z]", "[a-z]{2,4}[-][a-z]{1,4}[.][0-9]", "/[a-z]{2,4}[*]/", "/[A-Z][?][A-Z]{2,3}[*]/", "[0-9]{1,3}")
OPS = ("intersect", "union", "except")


def query(tier, name, parts, e, rules, fn="run_meaning"):
    def run():
        args = (e, rules) if fn == "run_meaning" else (None, None)
        return harness.run_text(None, parts, "drv_query", fn, args, identity=ALIAS, variants=VARIANTS[tier],
                                call=("run_query", (harness.node(rules),)), name=name)
    return Case(name, "query", run=run, line=harness.show_text(parts))


# ------------------------------------------------------------------ operators
def tree(items):
    """operands and operators alternating: intersect first, then from the left"""
    items = list(items)
    while "intersect" in items:
        i = items.index("intersect")
        items[i - 1:i + 2] = [("intersect", items[i - 1], items[i + 1])]
    while len(items) > 1:
        items[0:3] = [(items[1], items[0], items[2])]
    return items[0]


def operand(i):
    h = ip4("q%d" % i)
    return ["ip src ", h], ("rule", None, ("host", h), ("any",))


def rules_for(n=1):
    return tuple((model.st("r%did" % i), ("net", ip4("r%da" % i), pfx4("r%dm" % i)), model.kinds("r%dd" % i)["host"]) for i in range(n))


def joined(items):
    """text of operands and operators; an operand is (text, meaning)"""
    t = []
    for x in items:
        if t:
            t.append(" ")
        t += [x] if isinstance(x, str) else x[0]
    return t, tree([x if isinstance(x, str) else x[1] for x in items])


def paren(x):
    return ["("] + x[0] + [")"], ("block", x[1])


def c06(tier):
    yield from model.c06_model(tier)
    o = [operand(i) for i in range(6)]
    one, two = rules_for(1), rules_for(2)

    def q(items, rules=one, name=None):
        t, e = joined(items)
        return query(tier, name or harness.show_text(t), t, e, rules)
    yield q(o[:1], two)
    for n in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for ops in itertools.product(OPS, repeat=n):
            items = [o[0]]
            for i, p in enumerate(ops):
                items += [p, o[i + 1]]
            yield q(items, two if n < 3 else one)
    for p in OPS:
        for r in OPS:
            yield q([paren(joined([o[0], p, o[1]])), r, o[2]])
            yield q([o[0], p, paren(joined([o[1], r, o[2]]))])
            yield q([paren(joined([o[0], p, paren(joined([o[1], r, o[2]]))]))])
            yield q([paren(paren(joined([o[0], p, o[1]]))), r, paren(o[2])])
            for s in OPS:
                yield q([paren(joined([o[0], p, o[1]])), r, paren(joined([o[2], s, o[3]]))])
                yield q([o[0], p, paren(joined([o[1], r, o[2]])), s, o[3]])
                yield q([o[0], p, paren(joined([o[1], r, o[2], s, o[3]]))])
                yield q([paren(joined([o[0], p, o[1], r, o[2]])), s, o[3]])
                yield q([o[0], p, o[1], r, paren(joined([o[2], s, o[3]]))])
        yield q([o[0], p, o[0]], two, "same operand twice " + p)
    yield q([paren(o[0])], two)
    yield q([paren(paren(o[0]))], two)


# ------------------------------------------------------------------ criteria
def addresses(p):
    """name -> (text, meaning)"""
    return {
        "host": ([ip4(p + "h")], ("host", ip4(p + "h"))),
        "net": ([ip4(p + "a"), "/", pfx4(p + "m")], ("net", ip4(p + "a"), pfx4(p + "m"))),
        "host6": ([ip6(p + "i")], ("host", ip6(p + "i"))),
        "net6": ([ip6(p + "b"), "/", pfx6(p + "n")], ("net", ip6(p + "b"), pfx6(p + "n"))),
        "any": (["any"], ("any",)), "any4": (["any4"], ("any4",)), "any6": (["any6"], ("any6",)),
        "ANY": (["ANY"], ("ANY",)), "ANY4": (["ANY4"], ("ANY4",)), "ANY6": (["ANY6"], ("ANY6",)),
    }


def rule_addresses(p):
    k = model.kinds(p)
    g = model.groups(p)
    r = {n: k[n] for n in ("host", "net", "any", "any4", "any6", "ohost", "wild")}
    r["group"] = g["group(net,host)"]
    r["any4 in a group"] = ("group", k["host"], k["any4"])
    r["any6 in a group"] = ("group", ("group", k["any6"]), k["host"])
    return r


def alternatives(xs):
    if len(xs) == 1:
        return xs[0][1]
    return ("group",) + tuple(x[1] for x in xs)


def listed(xs):
    t = []
    for x in xs:
        t += [" "] + x[0]
    return t


def c07(tier):
    S, D = addresses("s"), addresses("d")
    R, Q = rule_addresses("x"), rule_addresses("y")

    def rules(*pairs):
        return tuple((model.st("rid%d" % n), R[i], Q[j]) for n, (i, j) in enumerate(pairs))
    everything = rules(*zip(list(R), list(Q)[3:] + list(Q)[:3]))
    some = rules(("net", "host"), ("group", "any4"), ("any", "net"))
    name = slot("id.pat", IDPAT)
    for i, x in S.items():
        yield query(tier, "src " + i, ["ip src "] + x[0], ("rule", None, x[1], ("any",)), everything)
        yield query(tier, "dst " + i, ["ip dst "] + x[0], ("rule", None, ("any",), x[1]), everything)
        yield query(tier, "id src " + i, ["id ", name, " ip src "] + x[0], ("rule", name, x[1], ("any",)), some)
        for j, y in D.items():
            yield query(tier, "src %s dst %s" % (i, j), ["ip src "] + x[0] + [" ip dst "] + y[0], ("rule", None, x[1], y[1]), everything if i == j else some)
            yield query(tier, "dst %s src %s" % (i, j), ["ip dst "] + x[0] + [" ip src "] + y[0], ("rule", None, y[1], x[1]), some)
            for what, f in (("src", lambda g: ("rule", None, g, ("any",))), ("dst", lambda g: ("rule", None, ("any",), g))):
                yield query(tier, "%s %s %s" % (what, i, j), ["ip " + what] + listed([x, y]), f(alternatives([x, y])), everything if i == j else some)
                yield query(tier, "%s %s ip %s %s" % (what, i, what, j), ["ip " + what] + listed([x]) + [" ip " + what] + listed([y]),
                            f(alternatives([x, y])), some)
    few = [S["host"], S["net6"], S["ANY4"]]
    few2 = [D["net"], D["ANY"], D["any6"]]
    e = ("rule", None, alternatives(few), alternatives(few2))
    yield query(tier, "three each", ["ip src"] + listed(few) + [" ip dst"] + listed(few2), e, everything)
    yield query(tier, "three each mixed", ["ip src"] + listed(few[:1]) + [" ip dst"] + listed(few2[:2]) + [" ip src"] + listed(few[1:])
                + [" ip dst"] + listed(few2[2:]), e, everything)
    # names
    both = ("rule", name, S["host"][1], D["net"][1])
    yield query(tier, "id", ["id ", name], ("rule", name, ("any",), ("any",)), everything)
    for t in ("acl-in", "/acl-*/", "ACL_1.a", "/a?c/", "/[ab]cl/", "/[!x]cl/", "/", "//", "acl*", "/acl", "any", "src", "id", "ip", "union", "101"):
        yield query(tier, "id " + t, ["id " + t + " ip src any"], ("rule", t, ("any",), ("any",)), some)
    yield query(tier, "id src dst", ["id ", name, " ip src"] + listed([S["host"]]) + [" ip dst"] + listed([D["net"]]), both, some)
    # parentheses and names
    h, g = S["host"], D["net"]
    inner = ("rule", None, h[1], ("any",))
    idr = ("rule", name, ("any",), ("any",))
    yield query(tier, "id before a block", ["id ", name, " (ip src "] + h[0] + [")"], ("intersect", idr, ("block", inner)), some)
    yield query(tier, "id before a block with an id", ["id ", name, " (id /acl-*/ ip src "] + h[0] + [")"],
                ("intersect", idr, ("block", ("rule", "/acl-*/", h[1], ("any",)))), some)
    yield query(tier, "id before a block with an id only", ["id ", name, " (id acl-x)"], ("intersect", idr, ("block", ("rule", "acl-x", ("any",), ("any",)))), some)
    yield query(tier, "id before a block of ids", ["id ", name, " (id acl-x union id /acl-*/ ip dst "] + g[0] + [")"],
                ("intersect", idr, ("block", ("union", ("rule", "acl-x", ("any",), ("any",)), ("rule", "/acl-*/", ("any",), g[1])))), some)
    yield query(tier, "id before a block of operators", ["id ", name, " (ip src "] + h[0] + [" union ip dst "] + g[0] + [")"],
                ("intersect", idr, ("block", ("union", inner, ("rule", None, ("any",), g[1])))), some)
    yield query(tier, "id before a block in operators", ["ip src any4 except id ", name, " (ip src "] + h[0] + [") union ip dst "] + g[0],
                ("union", ("except", ("rule", None, ("any4",), ("any",)), ("block", ("intersect", idr, ("block", inner)))),
                 ("rule", None, ("any",), g[1])), some)
    # comments and blanks
    full = ["id ", name, " ip src"] + listed([h]) + [" ip dst"] + listed([g])
    C1 = "/* ip src any union */"
    for n, t in {
        "comment first": [C1 + " "] + full, "comment last": full + [" " + C1], "comments": [C1 + C1] + full + [C1, "\n", C1],
        "comment between": ["id ", name, " " + C1 + " ip src"] + listed([h]) + [" ip dst"] + listed([g]),
        "comment between terms": ["id ", name, " ip src"] + listed([h]) + [" " + C1 + " ip dst"] + listed([g]),
        "empty comment": ["/**/ "] + full, "comment of stars": ["/* a * b ** / c */ "] + full,
        "comment of other text": ["/* ", word("cw"), " */ "] + full,
        "newlines": ["id\n ", name, "\n\tip src\n"] + h[0] + ["\n ip  dst "] + g[0] + ["\n"],
    }.items():
        yield query(tier, n, t, both, some)
    u = ("union", inner, ("rule", None, ("any",), g[1]))
    yield query(tier, "comments around an operator", ["ip src "] + h[0] + [" " + C1 + " union " + C1 + " ip dst "] + g[0], u, some)
    yield query(tier, "comment in a block", ["(" + C1 + " ip src "] + h[0] + [" " + C1 + ") union " + C1 + "(ip dst "] + g[0] + [")"],
                ("union", ("block", inner), ("block", ("rule", None, ("any",), g[1]))), some)
    # not queries
    for n, t in {
        "direction without ip": ["ip src "] + h[0] + [" dst "] + g[0],
        "unknown word": ["foo src "] + h[0], "no address": ["ip src"], "no direction": ["ip "] + h[0],
        "open block": ["(ip src any"], "closed block": ["ip src any)"],
        "open comment": ["ip src any /* foo"], "text after": ["ip src any foo"], "wrong address": ["ip src 10.0.0.256"],
        "wrong prefix": ["ip src 10.0.0.1/33"], "wrong prefix 6": ["ip src 2001:db8::1/129"], "no prefix": ["ip src 10.0.0.1/ dst any"],
        "name": ["ip src host"], "id without name": ["id"], "three octets": ["ip src 10.0.0"],
        "letter case": ["ip src Any"], "mixed case": ["IP src any"], "list of names": ["id A B"],
        "mask": ["ip src 10.0.0.0/255.255.0.0"],
    }.items():
        yield query(tier, "rejects " + n, t, None, some, fn="no_query")
