"""Grammar sources and generated parsers as one kind of tree.

Expressions: ("tok", s) ("pat", s) ("const", s) ("call", rule) ("void",) ("fail",) ("cut",) ("eof",) ("any",)
("seq", e...) ("alt", e...) ("opt", e) ("grp", e) ("and", e) ("not", e) ("name", n, e) ("names", n, e)
("clo", positive, separator, kind, e) ("def", names, lists)."""
import ast
import os
import re


class Bad(Exception):
    pass


# ------------------------------------------------------------------ sources
TOKENS = re.compile(r"""
  (?P<ws>\s+|\#(?!include)[^\n]*)
 |(?P<com>\(\*.*?\*\))
 |(?P<inc>\#include[ \t]*::[ \t]*["']?(?P<file>[^"'\n]+)["']?)
 |(?P<dir>@@\w+[ \t]*::?[^\n;]*;?)
 |(?P<deco>@(?:override|name|isname|nomemo|leftrec)\b)
 |(?P<ovl>@\+:)|(?P<ov>@:)
 |(?P<pat>\?/(?P<p1>.*?)/\?|/(?P<p2>(?:[^/\\\n]|\\.)*)/|\?"(?P<p3>[^"\n]*)"|\?'(?P<p4>[^'\n]*)')
 |(?P<raw>r"(?P<r1>[^"\n]*)"|r'(?P<r2>[^'\n]*)')
 |(?P<str>"(?P<s1>(?:[^"\\\n]|\\.)*)"|'(?P<s2>(?:[^'\\\n]|\\.)*)')
 |(?P<const>`(?P<c>[^`\n]*)`)
 |(?P<op>\}\+|\}\*|\}-|\+:|->|::|[=;|()\[\]{}&!~$:.%<>+,])
 |(?P<id>[A-Za-z_][A-Za-z_0-9]*)
""", re.X | re.S)


def lex(text, where):
    pos, out = 0, []
    while pos < len(text):
        m = TOKENS.match(text, pos)
        if not m or m.end() == pos:
            raise Bad("%s: cannot read %r" % (where, text[pos:pos + 30]))
        pos = m.end()
        k = m.lastgroup
        k = next(n for n in ("ws", "com", "inc", "dir", "deco", "ovl", "ov", "pat", "raw", "str", "const", "op", "id") if m.group(n) is not None)
        if k in ("ws", "com"):
            continue
        if k == "inc":
            out.append((k, m.group("file").strip()))
        elif k == "pat":
            out.append((k, next(m.group(n) for n in ("p1", "p2", "p3", "p4") if m.group(n) is not None)))
        elif k == "raw":
            out.append(("str", next(m.group(n) for n in ("r1", "r2") if m.group(n) is not None)))
        elif k == "str":
            s = next(m.group(n) for n in ("s1", "s2") if m.group(n) is not None)
            out.append((k, re.sub(r"\\(?:[nrtabfv\\'\"0]|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4})", lambda x: ast.literal_eval('"%s"' % x.group(0)), s)))
        elif k == "const":
            out.append((k, m.group("c").strip()))
        else:
            out.append((k, m.group(0)))
    return out


class Source:
    """rules of a grammar source, includes and overrides applied"""

    def __init__(self, path):
        self.rules, self.order, self.directives, self.overridden, self.decos, self.included = {}, [], [], [], {}, []
        self.path = path
        self.toks, self.i = self.read(path, ()), 0
        while self.i < len(self.toks):
            self.rule()

    def read(self, path, seen):
        if path in seen:
            raise Bad("%s includes itself" % path)
        out = []
        with open(path, encoding="utf-8") as f:
            for k, v in lex(f.read(), os.path.basename(path)):
                if k == "inc":
                    out += self.read(os.path.join(os.path.dirname(path), v), seen + (path,))
                else:
                    out.append((k, v))
        return out

    def peek(self, n=0):
        return self.toks[self.i + n] if self.i + n < len(self.toks) else ("end", "")

    def next(self, *want):
        t = self.peek()
        if want and t[1] not in want:
            raise Bad("%s: %r where %s stands" % (os.path.basename(self.path), " ".join(want), " ".join(v for _, v in self.toks[self.i:self.i + 6])))
        self.i += 1
        return t

    def rule(self):
        if self.peek()[0] == "dir":
            self.directives.append(self.next()[1])
            return
        decos = []
        while self.peek()[0] == "deco":
            decos.append(self.next()[1])
        k, name = self.next()
        if k != "id":
            raise Bad("rule name expected at %r" % name)
        if self.peek()[1] not in ("=", ":"):
            raise Bad("rule %s has parameters or a base" % name)
        self.next()
        e = self.alternatives()
        self.next(";")
        if name in self.rules:
            if "@override" not in decos:
                raise Bad("rule %s is defined twice" % name)
            self.overridden.append(name)
        elif "@override" in decos:
            raise Bad("rule %s overrides nothing" % name)
        else:
            self.order.append(name)
        self.rules[name] = e
        self.decos[name] = [d for d in decos if d != "@override"]

    def alternatives(self):
        if self.peek()[1] == "|" and self.peek()[0] == "op":
            self.next()
        alts = [self.sequence()]
        while self.peek() == ("op", "|"):
            self.next()
            alts.append(self.sequence())
        return alts[0] if len(alts) == 1 else ("alt",) + tuple(alts)

    def sequence(self):
        items = []
        while self.peek() not in (("op", "|"), ("op", ";"), ("op", ")"), ("op", "]"), ("op", "}"), ("op", "}+"), ("op", "}*"), ("op", "}-"), ("end", "")):
            if self.peek() == ("op", ","):
                self.next()
                continue
            if self.peek() == ("op", ">"):
                self.next()
                n = self.next()[1]
                if n not in self.rules:
                    raise Bad("included rule %s is not defined before" % n)
                e = self.rules[n]
                items += [x for x in e[1:] if x[0] != "def"] if e[0] == "seq" else [e]
                self.included.append(n)
                continue
            items.append(self.element())
        if len(items) == 1:
            return items[0]
        return ("seq",) + tuple(items) + declared(items)

    def element(self):
        k, v = self.peek()
        if k == "ov":
            self.next()
            return ("name", "@", self.term())
        if k == "ovl":
            self.next()
            return ("names", "@", self.term())
        if k == "id" and self.peek(1) in (("op", ":"), ("op", "+:")):
            self.next()
            o = self.next()[1]
            return ("name" if o == ":" else "names", v, self.term())
        if k == "deco" and self.peek(1) in (("op", ":"), ("op", "+:")):
            raise Bad("named @")
        return self.term()

    def term(self):
        k, v = self.next()
        if k == "str":
            e = ("tok", v)
        elif k == "pat":
            while self.peek() == ("op", "+") and self.peek(1)[0] == "pat":
                self.next()
                v += self.next()[1]
            e = ("pat", v)
        elif k == "const":
            e = ("const", v)
        elif k == "id":
            e = ("call", v)
        elif (k, v) == ("op", "("):
            if self.peek() == ("op", ")"):
                self.next()
                return ("void",)
            e = ("grp", self.alternatives())
            self.next(")")
        elif (k, v) == ("op", "["):
            e = ("opt", self.alternatives())
            self.next("]")
        elif (k, v) == ("op", "{"):
            return self.braces(None, None)
        elif (k, v) == ("op", "&"):
            return ("and", self.term())
        elif (k, v) == ("op", "!"):
            if self.peek() == ("op", "(") and self.peek(1) == ("op", ")"):
                self.next()
                self.next()
                return ("not", ("void",))
            return ("not", self.term())
        elif (k, v) == ("op", "~"):
            return ("cut",)
        elif (k, v) == ("op", "$"):
            return ("eof",)
        else:
            raise Bad("%s: %r cannot start an expression" % (os.path.basename(self.path), v))
        if self.peek() in (("op", "."), ("op", "%")) and self.peek(1) == ("op", "{"):
            o = self.next()[1]
            self.next("{")
            return self.braces(e, "gather" if o == "." else "join")
        return e

    def braces(self, sep, kind):
        if self.peek() == ("op", "}"):
            self.next()
            return ("clo", False, sep, kind, ("void",))
        e = self.alternatives()
        c = self.next("}", "}+", "}*", "}-")[1]
        return ("clo", c in ("}+", "}-"), sep, kind, e)


def names_of(e):
    """(name, is a list) in order, as a sequence declares them"""
    if e[0] in ("name", "names"):
        return ([] if e[1] == "@" else [(e[1], e[0] == "names")]) + names_of(e[2])
    r = []
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and e[0] != "def":
            r += names_of(x)
    return r


def declared(items):
    d = [n for i in items for n in names_of(i)]
    lists = {n for n, l in d if l}
    single = {n for n, l in d if not l and n not in lists}
    return (("def", tuple(sorted(map(safe, single))), tuple(sorted(map(safe, lists)))),) if lists or single else ()


def safe(n):
    import keyword
    return n + "_" if keyword.iskeyword(n) else n


# ------------------------------------------------------------------ generated modules
class Generated:
    """rules of a generated module"""

    def __init__(self, path, name):
        with open(path, encoding="utf-8") as f:
            self.tree = ast.parse(f.read(), path)
        self.path = path
        cls = [n for n in self.tree.body if isinstance(n, ast.ClassDef) and n.name.endswith("Parser") and any(
            isinstance(b, ast.Name) and b.id == "Parser" for b in n.bases)]
        if len(cls) != 1:
            raise Bad("%s: one parser class expected" % path)
        self.cls = cls[0]
        self.consts = {t.id: n.value for n in self.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
                       for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
        self.methods = {n.name: n for n in self.cls.body if isinstance(n, ast.FunctionDef)}
        self.rules, self.decos, self.lines, self.failed = {}, {}, {}, {}
        for n, m in self.methods.items():
            d = [x.func if isinstance(x, ast.Call) else x for x in m.decorator_list]
            d = [x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "?" for x in d]
            if d and d[0] in ("tatsumasu", "rule", "graken") and n.startswith("_") and n.endswith("_"):
                self.decos[n[1:-1]] = sorted("@" + x for x in d[1:])
                self.lines[n[1:-1]] = m.lineno
                try:
                    self.rules[n[1:-1]] = self.block(m.body, {}, (n,))
                except Bad as e:
                    self.failed[n[1:-1]] = str(e)

    def const(self, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name) and e.id in self.consts:
            return self.const(self.consts[e.id])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.const(e.left) + self.const(e.right)
        if isinstance(e, (ast.List, ast.Tuple)):
            return [self.const(x) for x in e.elts]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset") and not e.args:
            return []
        if isinstance(e, (ast.Set,)):
            return sorted(self.const(x) for x in e.elts)
        raise Bad("%s:%d is no constant" % (os.path.basename(self.path), getattr(e, "lineno", 0)))

    def block(self, stmts, env, stack):
        items, env = [], dict(env)
        for s in stmts:
            self.stmt(s, items, env, stack)
        defs = [i for i in items if i[0] == "def"]
        rest = [i for i in items if i[0] != "def"]
        if len(rest) == 1 and not defs:
            return rest[0]
        if defs:
            n, l = {x for d in defs for x in d[1]}, {x for d in defs for x in d[2]}
            defs = [("def", tuple(sorted(n - l)), tuple(sorted(l)))]
        return ("seq",) + tuple(rest) + tuple(defs)

    def stmt(self, s, items, env, stack):
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return
        if isinstance(s, ast.FunctionDef):
            env[s.name] = (s, env)
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            return self.call(s.value, items, env, stack)
        if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call):
            c = s.items[0].context_expr
            m = self.selfname(c)
            if m == "_choice":
                alts = []
                for o in s.body:
                    if isinstance(o, ast.With) and self.selfname(o.items[0].context_expr) == "_option":
                        alts.append(self.block(o.body, env, stack))
                    elif isinstance(o, ast.Expr) and isinstance(o.value, ast.Call) and self.selfname(o.value) == "_error":
                        break
                    elif isinstance(o, (ast.Pass, ast.Expr)) and not (isinstance(o, ast.Expr) and isinstance(o.value, ast.Call)):
                        continue
                    else:
                        raise Bad("%s:%d in a choice" % (os.path.basename(self.path), o.lineno))
                items.append(("alt",) + tuple(alts))
                return
            k = {"_optional": "opt", "_group": "grp", "_if": "and", "_ifnot": "not"}.get(m)
            if k:
                items.append((k, self.block(s.body, env, stack)))
                return
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets):
            return
        if isinstance(s, ast.If) and isinstance(s.test, ast.Constant):
            for x in (s.body if s.test.value else s.orelse):
                self.stmt(x, items, env, stack)
            return
        raise Bad("%s:%d is not in the generated form" % (os.path.basename(self.path), s.lineno))

    def selfname(self, c):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self":
            return c.func.attr
        return None

    def fn(self, e, env, stack):
        if isinstance(e, ast.Name) and e.id in env:
            f, fenv = env[e.id]
            return self.block(f.body, fenv, stack)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and e.attr in self.methods:
            return ("call", e.attr[1:-1]) if e.attr[1:-1] in self.decos or self.isrule(e.attr) else self.block(self.methods[e.attr].body, {}, stack + (e.attr,))
        if isinstance(e, ast.Lambda):
            items = []
            self.call(e.body, items, env, stack)
            return items[0] if len(items) == 1 else ("seq",) + tuple(items)
        raise Bad("%s:%d block expected" % (os.path.basename(self.path), e.lineno))

    def isrule(self, n):
        return n.startswith("_") and n.endswith("_") and not n.startswith("__") and n in self.methods and bool(self.methods[n].decorator_list)

    def call(self, c, items, env, stack):
        m = self.selfname(c)
        if m is None:
            if isinstance(c.func, ast.Name) and c.func.id in env:
                items.append(self.fn(c.func, env, stack))
                return
            raise Bad("%s:%d is not in the generated form" % (os.path.basename(self.path), c.lineno))
        a = c.args
        simple = {"_void": ("void",), "_cut": ("cut",), "_check_eof": ("eof",), "_any": ("any",), "_fail": ("fail",)}
        if m in simple:
            items.append(simple[m])
        elif m == "_token":
            items.append(("tok", self.const(a[0])))
        elif m == "_pattern":
            items.append(("pat", "".join(self.const(x) for x in a)))
        elif m == "_constant":
            items.append(("const", self.const(a[0])))
        elif m in ("name_last_node", "add_last_node_to_name"):
            if not items:
                raise Bad("%s:%d names nothing" % (os.path.basename(self.path), c.lineno))
            items.append(("name" if m == "name_last_node" else "names", self.const(a[0]), items.pop()))
        elif m == "_define":
            items.append(("def", tuple(sorted(self.const(a[0]))), tuple(sorted(self.const(a[1]) if len(a) > 1 else []))))
        elif m in ("_closure", "_positive_closure"):
            items.append(("clo", m == "_positive_closure", None, None, self.fn(a[0], env, stack)))
        elif m in ("_gather", "_positive_gather", "_join", "_positive_join"):
            items.append(("clo", m.startswith("_positive"), self.fn(a[1], env, stack), m.rsplit("_", 1)[1], self.fn(a[0], env, stack)))
        elif m == "_empty_closure":
            items.append(("clo", False, None, None, ("void",)))
        elif m == "_error":
            items.append(("fail",))
        elif self.isrule(m) or m not in self.methods and m.startswith("_") and m.endswith("_") and not a:
            items.append(("call", m[1:-1]))
        elif m in self.methods and not a:
            if m in stack:
                raise Bad("%s recursive helper" % m)
            b = self.block(self.methods[m].body, {}, stack + (m,))
            items.extend(b[1:] if b[0] == "seq" else [b])
        else:
            raise Bad("%s:%d %s is not in the generated form" % (os.path.basename(self.path), c.lineno, m))

    def settings(self):
        """what the parser is constructed with"""
        r = {}
        f = self.methods.get("__init__")
        if f is None:
            raise Bad("no __init__")
        for c in ast.walk(f):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "new":
                for k in c.keywords:
                    if k.arg and k.arg != "owner":
                        r[k.arg] = self.const(k.value)
        return r


def tidy(e):
    """without what makes no difference to what is recognised and built"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == "def":
        return e
    e = tuple(tidy(x) if isinstance(x, tuple) else x for x in e)
    if e[0] == "opt" and e[1][0] == "grp":
        return ("opt", e[1][1])
    if e[0] in ("and", "not") and e[1][0] == "grp":
        return (e[0], e[1][1])
    if e[0] == "alt":
        # words of which none begins another are told apart in any order
        w = [x[1] for x in e[1:] if x[0] == "tok"]
        if len(w) == len(e) - 1 and not any(a is not b and a.startswith(b) for a in w for b in w):
            return ("alt",) + tuple(sorted(e[1:]))
    return e


def diff(a, b, path=""):
    """first difference in words"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and isinstance(a[0], str):
        if a[0] == "def":
            return "%s: the names declared are %s and %s" % (path, a[1:], b[1:])
        if a[0] in ("seq", "alt"):
            for i, (x, y) in enumerate(zip(a[1:], b[1:])):
                d = diff(x, y, "%s/%s %d" % (path, a[0], i + 1))
                if d:
                    return d
            n = min(len(a), len(b))
            return "%s: %s" % (path, "the source continues with %s" % show(a[n]) if len(a) > n else "the parser continues with %s" % show(b[n]))
        for x, y in zip(a[1:], b[1:]):
            if x != y:
                if isinstance(x, tuple) and isinstance(y, tuple):
                    return diff(x, y, path + "/" + a[0])
                break
    return "%s: %s in the source, %s in the parser" % (path, show(a), show(b))


def show(e):
    if not isinstance(e, tuple) or not e:
        return repr(e)
    k = e[0]
    if k == "tok":
        return '"%s"' % e[1]
    if k == "pat":
        return "/%s/" % e[1]
    if k == "const":
        return "`%s`" % e[1]
    if k == "call":
        return e[1]
    if k in ("seq", "alt"):
        return "(" + (" " if k == "seq" else " | ").join(show(x) for x in e[1:5] if x[0] != "def") + (" .." if len(e) > 5 else "") + ")"
    if k == "name":
        return "%s:%s" % (e[1], show(e[2]))
    if k == "names":
        return "%s+:%s" % (e[1], show(e[2]))
    if k == "clo":
        return "{%s}%s" % (show(e[4]), "+" if e[1] else "*")
    return {"opt": "[%s]", "grp": "(%s)", "and": "&%s", "not": "!%s"}.get(k, k + "%.0s") % (show(e[1]) if len(e) > 1 else "")


def calls(e):
    if e[0] == "call":
        return {e[1]}
    r = set()
    for x in e[1:]:
        if isinstance(x, tuple) and x and e[0] != "def":
            r |= calls(x)
    return r


def nullable(rules):
    null, changed = set(), True

    def n(e):
        k = e[0]
        if k == "call":
            return e[1] in null
        if k in ("tok",):
            return e[1] == ""
        if k == "pat":
            try:
                return re.compile(e[1]).match("") is not None
            except re.error:
                return True
        if k == "seq":
            return all(n(x) for x in e[1:] if x[0] != "def")
        if k == "alt":
            return any(n(x) for x in e[1:])
        if k in ("name", "names"):
            return n(e[2])
        if k == "grp":
            return n(e[1])
        if k == "clo":
            return not e[1] or n(e[4])
        return k != "any"
    while changed:
        changed = False
        for r, e in rules.items():
            if r not in null and n(e):
                null.add(r)
                changed = True
    return null, n


def left_recursive(rules):
    null, n = nullable(rules)

    def firsts(e):
        k = e[0]
        if k == "call":
            return {e[1]}
        if k == "seq":
            r = set()
            for x in e[1:]:
                if x[0] == "def":
                    continue
                r |= firsts(x)
                if not n(x):
                    break
            return r
        if k == "alt":
            return set().union(*[firsts(x) for x in e[1:]])
        if k in ("name", "names"):
            return firsts(e[2])
        if k in ("grp", "opt", "and", "not"):
            return firsts(e[1])
        if k == "clo":
            return firsts(e[4]) | (firsts(e[2]) if e[2] and n(e[4]) else set())
        return set()
    g = {r: firsts(e) for r, e in rules.items()}

    def reach(r):
        seen, todo = set(), list(g.get(r, ()))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += g.get(x, ())
        return seen
    return {r for r in rules if r in reach(r)}
