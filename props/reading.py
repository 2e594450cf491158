"""C32, C33: ways to read a configuration; one configuration after the other."""
from sa import models
from . import ifaces, ios, model, pfsense, query as q, refs
from . import text as tx
from .pfsense import el
from .text import *

PATH = C("config")


def asa_doc(p=""):
    A = "LIST"
    S = tx.asa_hosts(p + "s")
    return Form((["ASA Version 9.4(2)"], ("version", "ASA Version 9.4(2)"))) + defs(
        named("NHOST", p + "n"), Form((["object network THE-OBJ\n host ", ip4(p + "o"), "\n description ", line(p + "od")],
                                       ("nobj", "THE-OBJ", line(p + "od"), ("host", ip4(p + "o")), None))),
        tx.a_group(["network "], "network", "GRP", line(p + "gd"), [
            (["network-object host ", ip4(p + "g")], ("host", ip4(p + "g")), None),
            (["network-object object THE-OBJ"], ("object", "THE-OBJ"), None)]),
        ifaces.block("Ethernet0", ifaces.name("inside"), ifaces.desc(line(p + "id")), ifaces.addr(ip4(p + "i"), "255.255.255.0")),
        L1(["access-list LIST remark ", tx.text(p + "r1")]),
        ext(A, "permit", *P("tcp"), (["object-group GRP"], ("group", "GRP")), (["object THE-OBJ"], ("object", "THE-OBJ")),
            dp=([" eq ", port(p + "dp")], ("eq", port(p + "dp"))), remarks=(tx.text(p + "r1"),)),
        L1("access-list LIST remark Z\u00fcrich \u2013 \u6771\u4eac a\x0bb\x0cc\x1cd\x85e\u2028f"),
        ext(A, "deny", *P("ip"), S["host"], ANY, remarks=("Z\u00fcrich \u2013 \u6771\u4eac a\x0bb\x0cc\x1cd\x85e\u2028f",)))


def ios_doc(p=""):
    H = ios.hosts(p + "s")
    return Form((["version 12.4"], ("version", " 12.4"))) + defs(
        ifaces.block("Ethernet0", ifaces.desc(line(p + "id")), ifaces.addr(ip4(p + "i"), "255.255.255.0")),
        ios.nlist("extended", "LIST", (["remark ", tx.line(p + "r1")], None),
                  ios.next_("LIST", "permit", *P("tcp"), H["host"], (["any"], ("any",)), remarks=(tx.line(p + "r1"),)),
                  (["remark \u00dcber a\x0bb\x0cc\x1cd\x85e\u2028f"], None),
                  ios.next_("LIST", "deny", *P("ip"), (["any"], ("any",)), (["any"], ("any",)), remarks=("\u00dcber a\x0bb\x0cc\x1cd\x85e\u2028f",))),
        ios.numext("101", "deny", *P("ip"), H["host"], (["any"], ("any",))))


def pf_doc(p="", d=None):
    S = pfsense.hosts(p + "s")
    d = pfsense.base()
    for x in (S["group"], ) if "group" in S else ():
        x[2](d)
    pfsense.rule(d, S["group"] if "group" in S else S["host"], S["host"])
    return pfsense.rule(d, S["host"], S["any"], typ="block")


def ends(parts, crlf, final):
    out = [x.replace("\n", "\r\n") if crlf and isinstance(x, str) else x for x in parts]
    return out + ["\r\n" if crlf else "\n"] if final else out


def reading(name, parts, fn, items, dialect, how, options, bom):
    def run():
        models.FILES.clear()
        models.TABLES.clear()
        models.FILES[PATH] = (harness.text(parts), bom)
        try:
            return harness.run_text(CONFIG, parts, "drv_text", fn, (items,), identity=IDENT, ignore=IGNORE,
                                    call=("read_by", [C(dialect), C(how), C(options)]), name=name)
        finally:
            models.FILES.clear()
    return Case(name, "reading", run=run, line=harness.show_text(parts))


def documents():
    a, i, x = asa_doc(), ios_doc(), pf_doc()
    return {"asa": (parts_of(a), "asa", tuple(a.items)), "ios": (parts_of(i), "ios", tuple(i.items)),
            "pfsense": (x.parts(), "pfsense", x.expected())}


def c32(tier):
    for d, (parts, fn, items) in documents().items():
        for how in ("string", "file", "named file", "path"):
            for cls in ("", d):
                for opts in (None, "generic"):
                    for crlf in (False, True):
                        for final in (False, True):
                            for bom in (False, True) if how != "string" else (False,):
                                if how == "file" and opts:
                                    continue
                                yield reading("%s%s by %s%s%s%s%s" % (
                                    d, " class" if cls else "", how, ", options" if opts else "", ", CR LF" if crlf else "",
                                    ", last line ended" if final else "", ", byte order mark" if bom else ""),
                                    ends(parts, crlf, final), fn, items, cls, how, opts, bom)
    # the options count
    U = "https://example.net/list.txt"
    for o, may in ((False, False), (True, True), ("generic", False), (None, True)):
        for how in ("string", "named file", "path"):
            for cls in ("", "pfsense"):
                x = pfsense.base()
                h = ip4("tbl")
                x.add("aliases", el("alias", el("name", "TABLE"), el("type", "urltable"), el("address", U), el("descr", "a table"), el("url", U), el("updatefreq", "7")),
                      ("group", "network", "TABLE", "a table", (("host", h),) if may else (("any",),)))
                pfsense.rule(x, ([el("address", "TABLE")], ("group", "TABLE")), ([el("any")], ("any",)))
                yield fetching("table by %s%s with %s" % (how, " of the class" if cls else "", o), x, how, cls, o, {U: [h, "\n"]} if may else {})
    rules = q.rules_for(1)
    queries = {"one line": q.joined([q.operand(0), "union", q.operand(1)]),
               "lines": (["\n", "ip src ", ip4("q0"), "\n  except\n", "ip dst ", ip4("q1"), "\n"],
                         ("except", q.operand(0)[1], ("rule", None, ("any",), ("host", ip4("q1")))))}
    for n, (parts, e) in queries.items():
        for how in ("string", "file", "named file", "path"):
            for crlf in (False, True):
                for final in (False, True):
                    for bom in (False, True) if how != "string" else (False,):
                        yield reading_query("query of %s by %s%s%s%s" % (
                            n, how, ", CR LF" if crlf else "", ", last line ended" if final else "", ", byte order mark" if bom else ""),
                            ends(parts, crlf, final), e, rules, how, bom)


def fetching(name, d, how, cls, options, fetched):
    parts = d.parts()

    def run():
        models.FILES.clear()
        models.TABLES.clear()
        for u, t in fetched.items():
            models.TABLES[harness.text([u])] = harness.text(t)
        models.FILES[PATH] = (harness.text(parts), False)
        try:
            return harness.run_text(CONFIG, parts, "drv_text", "fetching_by", (C(how), tuple(fetched), d.expected()), identity=IDENT, ignore=IGNORE,
                                    call=("read_by", [C(cls), C(how), C(options)]), effects=True, name=name)
        finally:
            models.FILES.clear()
            models.TABLES.clear()
    return Case(name, "reading", run=run, line=harness.show_text(parts))


def reading_query(name, parts, e, rules, how, bom):
    def run():
        models.FILES.clear()
        models.FILES[PATH] = (harness.text(parts), bom)
        try:
            return harness.run_text(None, parts, "drv_query", "run_meaning", (e, rules), identity=q.ALIAS,
                                    call=("query_by", (C(how), harness.node(rules))), name=name)
        finally:
            models.FILES.clear()
    return Case(name, "reading", run=run, line=harness.show_text(parts))


# ------------------------------------------------------------------ one after the other
def both(name, parts, other, how, first, items, dialect="", fn="asa"):
    """first: (dialect, items) of what the other text means"""
    def run():
        models.FILES.clear()
        models.TABLES.clear()
        return harness.run_text(CONFIG, parts, "drv_text", "both", (C(how), C(first[0]), first[1], C(fn), items), identity=IDENT, ignore=IGNORE,
                                call=("read_both", [harness.text(other), C(dialect), C(how)]), name=name)
    return Case(name, "one after the other", run=run, line=harness.show_text(other) + "\n----\n" + harness.show_text(parts))


BAD = {
    "no configuration": ["this is no configuration\n"],
    "wrong line after a list": ["access-list LIST remark lost\naccess-list LIST extended permit ip any any\nobject network THE-OBJ\n host 1.1.1.1\nobject-group network GRP\n"
                                " network-object object THE-OBJ\n network-object host 9.9.9.9\nname 7.7.7.7 NHOST\naccess-list LIST remark pending\n"
                                "access-list LIST extended permit tcp any object-group NO-SUCH\n"],
    "wrong line after ios lists": ["version 12.4\nip access-list extended LIST\n remark lost\n permit ip any any\n remark pending\n permit ip host 1.1.1.1 object-group NO-SUCH\n"],
    "cut XML": ["<?xml version=\"1.0\"?><pfsense><aliases>"],
}


def c33(tier):
    docs = documents()
    others = {"asa": (parts_of(asa_doc("o.")), "asa", tuple(asa_doc("o.").items)),
              "ios": (parts_of(ios_doc("o.")), "ios", tuple(ios_doc("o.").items)),
              "pfsense": (pf_doc("o.").parts(), "pfsense", pf_doc("o.").expected())}
    for d, (parts, fn, items) in docs.items():
        for cls in ("", d):
            for o, (op, of, oi) in others.items():
                yield both("%s%s after %s" % (d, " class" if cls else "", o), parts, op, "before", (of, oi), items, cls, fn)
            yield both("%s%s twice" % (d, " class" if cls else ""), parts, parts, "twice", (fn, items), items, cls, fn)
            for b, t in BAD.items():
                yield both("%s%s after %s" % (d, " class" if cls else "", b), parts, t, "failed", (fn, ()), items, cls, fn)
    # what another configuration defines is not known
    for n, dialect, kinds, need, mk in refs.contexts():
        if n == "ios route interface":
            continue
        pre = need() if need else Form()
        for k in kinds:
            f = defs(pre, refs.define(k, "X", "x0", dialect))
            yield unknown("%s (%s) of another configuration" % (n, k), with_head(dialect, pre + mk("X")), with_head(dialect, f),
                          dialect, tuple(with_version(dialect, f).items))
            yield both("%s (%s) of both" % (n, k), with_head(dialect, f + mk("X")),
                       with_head(dialect, defs(pre, refs.define(k, "X", "x1", dialect))), "before",
                       (dialect, tuple(with_version(dialect, defs(pre, refs.define(k, "X", "x1", dialect))).items)),
                       tuple(with_version(dialect, f + mk("X")).items), "", dialect)
            g = defs(pre, refs.define(k, "X", "x1", dialect)) + mk("X")
            yield both("%s (%s) used in both" % (n, k), with_head(dialect, f + mk("X")), with_head(dialect, g), "before",
                       (dialect, tuple(with_version(dialect, g).items)), tuple(with_version(dialect, f + mk("X")).items), "", dialect)
    rules = q.rules_for(1)
    texts = {"union": q.joined([q.operand(0), "union", q.operand(1)]), "ids": (["id /acl-[a]/ and ip src ", ip4("q0")], None),
             "except": q.joined([q.operand(0), "except", q.operand(1), "intersect", q.operand(2)]), "no query": (["ip source 1"], None),
             "unfinished": (["ip src 1.1.1.1 union"], None), "block": q.paren(q.joined([q.operand(3), "intersect", q.operand(4)]))}
    for n, (parts, e) in texts.items():
        for m, (other, _) in texts.items():
            if e is not None:
                yield second_query("query %s after %s" % (n, m), parts, other, e, rules)


def with_version(dialect, form):
    return Form((["ASA Version 9.4(2)"], ("version", "ASA Version 9.4(2)")) if dialect == "asa" else (["version 12.4"], ("version", " 12.4"))) + form


def with_head(dialect, form):
    return parts_of(with_version(dialect, form))


def unknown(name, parts, other, fn, items):
    def run():
        return harness.run_text(CONFIG, parts, "drv_text", "rejected_after_meaning", (C(fn), items), identity=IDENT, ignore=IGNORE,
                                call=("rejected_after", [harness.text(other)]), name=name)
    return Case(name, "one after the other", run=run, line=harness.show_text(other) + "\n----\n" + harness.show_text(parts))


def second_query(name, parts, other, e, rules):
    def run():
        return harness.run_text(None, parts, "drv_query", "run_meaning", (e, rules), identity=q.ALIAS,
                                call=("two_queries", (harness.text(other), harness.node(rules))), name=name)
    return Case(name, "one after the other", run=run, line=harness.show_text(other) + "\n----\n" + harness.show_text(parts))
