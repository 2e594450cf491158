"""C21: grammar sources, generated parsers and actions."""
import ast
import os

from sa import ebnf, harness
from sa.core import MissingAnchor
from sa.run import Case

GRAMMARS = ("caf", "fwsm", "ios")
LIB = "lib/acltk"
SETTINGS = {"whitespace": None, "nameguard": None, "ignorecase": False, "namechars": "", "parseinfo": False, "comments_re": None, "eol_comments_re": None, "keywords": []}


def path(*p):
    return os.path.join(harness.REPO, LIB, *p)


class Actions:
    """classes of the action modules"""

    def __init__(self):
        self.classes = {}       # name -> (module, node, bases)
        for f in sorted(os.listdir(path())):
            if f.endswith("Semantics.py"):
                with open(path(f), encoding="utf-8") as h:
                    t = ast.parse(h.read())
                for n in t.body:
                    if isinstance(n, ast.ClassDef):
                        self.classes[n.name] = (f[:-3], n, [b.id for b in n.bases if isinstance(b, ast.Name)])

    def mro(self, c):
        out = [c]
        for b in self.classes[c][2]:
            if b in self.classes:
                out += [x for x in self.mro(b) if x not in out]
        return out

    def methods(self, c):
        return {m.name: m for m in self.classes[c][1].body if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef))}

    def lookup(self, c, name):
        for x in self.mro(c):
            m = self.methods(x).get(name)
            if m:
                return x, m
        return None


def used_semantics():
    """grammar -> action class, from the calls that start a parse: the class constructed along with the parser"""
    out, starts = {}, {}
    for f in sorted(os.listdir(path())):
        if not f.endswith(".py"):
            continue
        with open(path(f), encoding="utf-8") as h:
            t = ast.parse(h.read())
        for fn in ast.walk(t):
            if not isinstance(fn, ast.FunctionDef):
                continue
            names = {c.func.id if isinstance(c.func, ast.Name) else c.func.attr for c in ast.walk(fn) if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute))}
            ps = [g for g in GRAMMARS if g + "Parser" in names]
            ss = [n for n in names if n.lower().endswith("semantics")]
            if len(ps) == 1 and len(ss) == 1:
                out[ps[0]] = ss[0]
                for c in ast.walk(fn):
                    if isinstance(c, ast.Call):
                        for k in c.keywords:
                            if k.arg in ("rule_name", "start", "start_rule") and isinstance(k.value, ast.Constant):
                                starts[ps[0]] = (k.value.value, "%s/%s:%d" % (LIB, f, k.value.lineno))
    return out, starts


def result(status="same", text="", reached=(), calls=1):
    r = harness.Result()
    r.status, r.text, r.reached, r.calls = status, text, set(reached), calls
    return r


def static(name, f, line=None):
    return Case(name, "agreement", run=f, line=line)


# ------------------------------------------------------------------ what an action reads of its node
class Reads(ast.NodeVisitor):
    """attributes of the node an action gets: {name: line}, and of their values: {(name, attr): line}"""

    def __init__(self, acts, cls, seen=()):
        self.acts, self.cls, self.seen = acts, cls, seen
        self.one, self.two = {}, {}
        self.passed = set()     # other methods that get the node
        self.made = set()       # what is added to the node itself
        self.alias = set()

    def of(self, fn, param):
        self.alias = {param}
        for _ in range(2):
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in self.alias:
                    self.alias |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        # a name bound to something else as well says nothing
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in self.alias:
                if not any(isinstance(a, ast.Assign) and n in a.targets and isinstance(a.value, ast.Name) and a.value.id in self.alias for a in ast.walk(fn)):
                    return self
        guarded = set()
        for n in ast.walk(fn):      # attributes asked for with hasattr / isinstance are optional
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[0], ast.Name) and n.args[0].id in self.alias:
                return self
        talk = {id(x) for n in ast.walk(fn) if isinstance(n, ast.Assert) and n.msg is not None for x in ast.walk(n.msg)} | {
            id(x) for n in ast.walk(fn) if isinstance(n, ast.Raise) and n.exc is not None for x in ast.walk(n.exc)}
        for n in ast.walk(fn):
            if id(n) in talk:
                continue
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in self.alias and isinstance(n.slice, ast.Constant):
                self.made.add(n.slice.value)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if isinstance(n.value, ast.Name) and n.value.id in self.alias:
                    self.one.setdefault(n.attr, n.lineno)
                elif isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id in self.alias:
                    self.two.setdefault((n.value.attr, n.attr), n.lineno)
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in self.alias and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                self.one.setdefault(n.slice.value, n.lineno)
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id == "getattr" and len(n.args) >= 2 and isinstance(n.args[0], ast.Name) and n.args[0].id in self.alias and isinstance(n.args[1], ast.Constant):
                    if len(n.args) == 2:
                        self.one.setdefault(n.args[1].value, n.lineno)
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and f.attr not in self.seen:
                    t = self.acts.lookup(self.cls, f.attr)
                    if t:
                        ps = [a.arg for a in t[1].args.args][1:]
                        for i, a in enumerate(n.args):
                            if isinstance(a, ast.Name) and a.id in self.alias and i < len(ps):
                                r = Reads(self.acts, self.cls, self.seen + (f.attr,)).of(t[1], ps[i])
                                self.passed.add(f.attr)
                                self.passed |= r.passed
                                self.made |= r.made
                                for k, v in r.one.items():
                                    self.one.setdefault(k, v)
                                for k, v in r.two.items():
                                    self.two.setdefault(k, v)
        return self


def produced(e):
    return {safekey(ebnf.safe(n)) for n, _ in ebnf.names_of(e)} | {ebnf.safe(n) for n, _ in ebnf.names_of(e)}


DICT = set(dir(dict)) | {"asjson", "parseinfo", "copy", "ctx", "rule", "line", "endline"}


def safekey(k):
    return k + "_" if k in dir(dict) else k


def values(e, name):
    """expressions named so"""
    if e[0] in ("name", "names") and e[1] == name:
        return [(e[0], e[2])]
    r = []
    for x in e[1:]:
        if isinstance(x, tuple) and x and e[0] != "def":
            r += values(x, name)
    return r


def rules_of(e):
    """rules whose result the expression is; None when it is something else"""
    if e[0] == "call":
        return {e[1]}
    if e[0] in ("grp", "opt") and len(e) == 2:
        return rules_of(e[1])
    if e[0] == "alt":
        r = [rules_of(x) for x in e[1:]]
        return None if None in r else set().union(*r)
    return None


def c21(tier):
    sources, parsers = {}, {}
    for g in GRAMMARS:
        try:
            sources[g] = ebnf.Source(path(g + ".bnf"))
            parsers[g] = ebnf.Generated(path(g + ".py"), g)
        except FileNotFoundError as e:
            raise MissingAnchor(str(e))
        except ebnf.Bad as e:
            yield static("reading of %s" % g, lambda e=e: result("undecided", str(e)))
            return
    acts = Actions()
    sems, starts = used_semantics()

    # the parser is the grammar
    for g in GRAMMARS:
        s, p = sources[g], parsers[g]

        def rule(r, g=g, s=s, p=p):
            def run():
                at = [("%s.%s" % (g, r), "%s/%s.py:%d" % (LIB, g, p.lines.get(r, 0)))]
                if r not in s.rules:
                    return result("differs", "rule %s of %s.py (line %d) is in no grammar source" % (r, g, p.lines[r]), at)
                if r in p.failed:
                    return result("undecided", p.failed[r], at)
                if r not in p.rules:
                    return result("differs", "rule %s of %s.bnf is missing in %s.py" % (r, g, g), at)
                d = ebnf.diff(ebnf.tidy(const(s.rules[r])), ebnf.tidy(const(p.rules[r])))
                if d:
                    return result("differs", "rule %s (%s.py:%d) %s" % (r, g, p.lines[r], d), at)
                missing = sorted(ebnf.calls(s.rules[r]) - set(s.rules))
                if missing:
                    return result("differs", "rule %s of %s.bnf uses %s, which no rule is called" % (r, g, missing), at)
                deco = sorted(d for d in p.decos[r] if d != "@nomemo")
                want = sorted((["@leftrec"] if r in left else []) + (["@isname"] if "@name" in s.decos[r] or "@isname" in s.decos[r] else []))
                if deco != want:
                    return result("differs", "rule %s (%s.py:%d) is decorated with %s, not %s" % (r, g, p.lines[r], deco, want), at)
                return result(reached=at)
            return run
        left = ebnf.left_recursive(s.rules)
        for r in s.order + [r for r in p.decos if r not in s.rules]:
            yield static("rule %s of %s" % (r, g), rule(r), line=ebnf.show(s.rules[r])[:300] if r in s.rules else None)

        def settings(g=g, s=s, p=p):
            want = dict(SETTINGS, start=s.order[0])
            if s.directives:
                return result("undecided", "directives %s" % s.directives)
            try:
                have = p.settings()
            except ebnf.Bad as e:
                return result("undecided", str(e))
            d = {k: (want.get(k), have.get(k)) for k in set(want) | set(have) if want.get(k) != have.get(k)}
            return result("differs", "%s.py: setting, by the source and in the parser: %s" % (g, d)) if d else result()
        yield static("settings of %s" % g, settings)

        def start(g=g, s=s):
            if g not in starts:
                return result("undecided", "no constant start rule")
            n, at = starts[g]
            return result() if n in s.rules else result("differs", "%s: %s starts with rule %s, which the grammar has not" % (at, g, n))
        yield static("start of %s" % g, start)

        def reach(g=g, s=s):
            if g not in starts or starts[g][0] not in s.rules:
                return result("undecided", "no start")
            seen, todo = set(), [starts[g][0]]
            while todo:
                x = todo.pop()
                if x in s.rules and x not in seen:
                    seen.add(x)
                    todo += ebnf.calls(s.rules[x])
            return result(calls=len(seen))
        yield static("rules reached in %s" % g, reach)

    # the actions belong to the grammar
    def users(c):
        return [g for g in GRAMMARS if sems.get(g) in acts.classes and c in acts.mro(sems[g])]

    def anchors():
        for g in GRAMMARS:
            if sems.get(g) not in acts.classes:
                raise MissingAnchor("actions of %s" % g)
        return result()
    yield static("actions are found", anchors)
    called = set()
    for c, (m, node, b) in acts.classes.items():
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                called.add(n.attr)
            elif isinstance(n, ast.Name):
                called.add(n.id)
    # what a method may be given beside the node of its own rule: nodes of the rules whose actions hand theirs on
    given = {}
    for g in GRAMMARS:
        for r in sources[g].rules:
            t = sems.get(g) in acts.classes and not r.startswith("_") and acts.lookup(sems[g], r)
            if t and len(t[1].args.args) > 1:
                rd = Reads(acts, sems[g]).of(t[1], t[1].args.args[1].arg)
                for m in rd.passed:
                    given.setdefault((g, m), set()).update(produced(sources[g].rules[r]) | rd.made)
    for c, (mod, node, bases) in sorted(acts.classes.items()):
        gs = users(c)
        if gs:
            for n, fn in sorted(acts.methods(c).items()):
                if n.startswith("_"):
                    continue
                at = [("%s.%s" % (c, n), "%s/%s.py:%d" % (LIB, mod, fn.lineno))]
                here = [g for g in gs if n in sources[g].rules]
                static_ = any(isinstance(d, ast.Name) and d.id in ("staticmethod", "property") for d in fn.decorator_list)

                def belongs(here=here, n=n, at=at, gs=gs):
                    if here or n in called or n == "semantics":
                        return result(reached=at)
                    return result("differs", "%s: action %s belongs to no rule of %s" % (at[0][1], at[0][0], ", ".join(gs)), at)
                yield static("action %s.%s" % (c, n), belongs)
                if not here or static_:
                    continue
                params = [a.arg for a in fn.args.args]
                if len(params) < 2:
                    continue
                eff = [g for g in here if acts.lookup(sems[g], n)[0] == c]
                reads = Reads(acts, sems[gs[0]]).of(fn, params[1])
                have = set().union(*[produced(sources[g].rules[n]) for g in eff]) if eff else set()
                have |= set().union(*[given.get((g, n), set()) for g in eff]) if have else set()
                have |= reads.made if have else set()
                if not have:
                    continue        # the node of a rule without names is what its parts make of it
                passes = [g for g in eff if not ebnf.names_of(sources[g].rules[n])]
                for a, l in sorted(reads.one.items()):
                    if a in DICT and a not in have:
                        continue

                    def needs(a=a, l=l, have=have, at=at, eff=eff, passes=passes):
                        if a in have or passes:
                            return result(reached=at)
                        return result("differs", "%s/%s needs %s, which rule %s of %s cannot produce" % (
                            at[0][1].rsplit(":", 1)[0], "%s line %d" % (at[0][0], l), a, at[0][0].split(".")[1], ", ".join(eff)), at)
                    yield static("action %s.%s reads %s" % (c, n, a), needs)
                for (a, b2), l in sorted(reads.two.items()):
                    if a not in have or b2 in DICT:
                        continue

                    def inner(a=a, b2=b2, l=l, at=at, eff=eff, n=n):
                        for g in eff:
                            for how, e in values(sources[g].rules[n], a):
                                rs = rules_of(e)
                                if how == "names" or rs is None:
                                    return result(reached=at)
                                for r in rs:
                                    if acts.lookup(sems[g], r) or r not in sources[g].rules or not ebnf.names_of(sources[g].rules[r]) or b2 in produced(sources[g].rules[r]):
                                        return result(reached=at)
                        return result("differs", "%s line %d needs %s of %s, which no rule that makes it produces" % (at[0][0], l, b2, a), at)
                    yield static("action %s.%s reads %s.%s" % (c, n, a, b2), inner)
    # rules replaced by hand
    for f in sorted(os.listdir(path())):
        if f.endswith("Semantics.py"):
            with open(path(f), encoding="utf-8") as h:
                t = ast.parse(h.read())
            for k in t.body:
                if isinstance(k, ast.ClassDef) and k.name.endswith("Parser"):
                    gs = [g for g in GRAMMARS if f == g + "Semantics.py"] or [g for g in GRAMMARS if any(
                        k.name in x[2] for n, x in acts.classes.items() if x[0] == g + "Semantics")]
                    for m in k.body:
                        if isinstance(m, ast.FunctionDef) and gs and m.decorator_list and m.name.startswith("_") and m.name.endswith("_") and not m.name.startswith("__"):
                            def placed(m=m, gs=gs, f=f):
                                if any(m.name[1:-1] in sources[g].rules for g in gs):
                                    return result()
                                return result("differs", "%s/%s:%d replaces rule %s, which no grammar has" % (LIB, f, m.lineno, m.name[1:-1]))
                            yield static("rule %s replaced in %s.%s" % (m.name[1:-1], f, k.name), placed)


def const(e):
    """constants as values"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == "const" and isinstance(e[1], str):
        try:
            v = ast.literal_eval(e[1])
            return ("const", v if isinstance(v, str) else e[1])
        except (ValueError, SyntaxError):
            return e
    return tuple(const(x) if isinstance(x, tuple) else x for x in e)
