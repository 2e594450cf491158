"""The TatSu runtime as a transfer function.

A parse is interpreted over an abstract text: constant fragments and slots.  A
slot is a symbolic word; the choice points of the grammar are decided with a
representative word of its class, while everything the semantic actions see is
the symbol, so what they compute holds for every word of the class.  Rule
methods in the generated form are compiled from their syntax trees; others are
interpreted like any other method.
"""
import ast as A
import keyword
import re

from .dd import *
from .core import *
from . import rx

VARIANT = rx.VARIANT


class Fail(Exception):
    """FailedParse"""
    kind = "FailedParse"

    def __init__(self, st, pos, item):
        Exception.__init__(self, item)
        self.st, self.pos, self.item = st, pos, item


class PatternFail(Fail):
    kind = "FailedPattern"


class CutFail(Fail):
    kind = "FailedCut"


class OptOK(Exception):
    def __init__(self, st):
        self.st = st


class Closure(list):
    pass


RESERVED = {"frozen", "parseinfo", "set_parseinfo", "copy", "asjson", "_set", "_setlist", "_frozen", "_safekey",
            "_define"} | set(dir(dict)) | {"__copy__", "__json__", "__hasattribute__", "__getattr__", "__dict__",
                                           "__weakref__", "__module__"}


def safekey(k):
    while k in RESERVED:
        k += "_"
    return k


class PAst(dict):
    pass


class PState:
    __slots__ = ("ast", "cst", "pos")

    def __init__(self, ast=None, pos=0):
        self.ast = PAst() if ast is None else ast
        self.cst = None
        self.pos = pos


def items_of(leaf):
    r = rx.items_of(leaf)
    if r is None:
        raise Undecided("text with an unknown part %s" % show_leaf(leaf))
    return r


def word(node):
    l = node.leaf
    if l is None:
        raise Undecided("gated text")
    if l[0] == "c":
        return str(l[2])
    if l[0] == "t" and l[1] == "fmt":
        return "".join(word(p) for p in l[2:])
    return rx.sample(*items_of(l))


def class_pattern(leaf):
    """the expression for the words of a class"""
    its, k = items_of(leaf)
    return "".join("[%s]{%d,%s}" % ("".join(re.escape(c) for c in sorted(cs)), lo, "" if hi is None else hi) for cs, lo, hi in its)


class Text:
    def __init__(self, node):
        l = node.leaf
        if l is None:
            raise Undecided("gated text")
        parts = l[2:] if l[0] == "t" and l[1] == "fmt" else (node,)
        self.slots = []
        self.items = []
        self.at = {}
        self.memo = {}
        s = ""
        for p in parts:
            if p.leaf[0] == "c":
                for c in str(p.leaf[2]):
                    self.at[len(s)] = len(self.items)
                    s += c
                    self.items.append((frozenset(c), 1, 1, len(s)))
                continue
            its, k = items_of(p.leaf)
            w = word(p)
            self.slots.append((len(s), len(s) + len(w), p))
            # positions inside the word only make sense up to the first part of open length
            pos, fixed = len(s), True
            for cs, lo, hi in its:
                if fixed:
                    self.at[pos] = len(self.items)
                fixed = fixed and lo == hi
                pos += 1
                self.items.append((cs, lo, hi, pos if fixed else ("in", len(self.items))))
            cs, lo, hi, _ = self.items[-1]
            s += w
            self.items[-1] = (cs, lo, hi, len(s))
        self.s = s
        self.at[len(s)] = len(self.items)
        self.lastslot = max([y for x, y, n in self.slots], default=-1)

    def match(self, pat, m, pos):
        """m is the match of the pattern on the representative; must be the same for all words"""
        if pos >= self.lastslot:
            return
        key = (pat, pos)
        if key not in self.memo:
            i = self.at.get(pos)
            if i is None:
                raise Undecided("position inside a word")
            before = "\n" if pos == 0 else self.s[pos - 1]
            self.memo[key] = rx.match(pat, self.items[i:], before=before)
        r = self.memo[key]
        if r == "empty":
            r = pos
        want = m.end() if m else None
        if r != want:
            raise Undecided("pattern %r takes part of a word (%r, %r)" % (pat, r, want))

    def holds(self, pos, node):
        """the word of the node begins here"""
        return any(x == pos and n is node for x, y, n in self.slots)

    def slice(self, a, b):
        """value of the text between two positions"""
        out, pos = [], a
        for x, y, n in self.slots:
            if y <= a or x >= b:
                continue
            if pos < x:
                out.append(C(self.s[pos:x]))
            if x < a or y > b:
                out.append(T("part", n, C(max(a, x) - x), C(min(b, y) - x)))
                pos = min(b, y)
                continue
            out.append(n)
            pos = y
        if pos < b:
            out.append(C(self.s[pos:b]))
        if not out:
            return C("")
        if len(out) == 1:
            return out[0]
        return T("fmt", *out)


# ------------------------------------------------------------------ compiled rule methods
class NotGenerated(Exception):
    pass


def selfcall(e):
    if isinstance(e, A.Call) and isinstance(e.func, A.Attribute) and isinstance(e.func.value, A.Name) and \
            e.func.value.id == "self" and not e.keywords:
        return e.func.attr, e.args
    raise NotGenerated()


def lit(e):
    try:
        return A.literal_eval(e)
    except Exception:
        raise NotGenerated()


def seq(fs):
    if len(fs) == 1:
        return fs[0]

    def run(P, st):
        for f in fs:
            f(P, st)
    return run


def comp_block(stmts, env):
    env = dict(env)
    fs = []
    for s in stmts:
        if isinstance(s, A.FunctionDef):
            if s.args.args or s.decorator_list:
                raise NotGenerated()
            env[s.name] = comp_block(s.body, env)
        elif isinstance(s, A.Pass) or (isinstance(s, A.Expr) and isinstance(s.value, A.Constant)):
            pass
        elif isinstance(s, A.With):
            f = comp_block(s.body, env)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    raise NotGenerated()
                n, a = selfcall(it.context_expr)
                if n not in CM or a:
                    raise NotGenerated()
                f = wrap(CM[n], f)
            fs.append(f)
        elif isinstance(s, A.Expr):
            fs.append(comp_call(s.value, env))
        else:
            raise NotGenerated()
    return seq(fs) if fs else (lambda P, st: None)


def wrap(cm, f):
    return lambda P, st: cm(P, st, f)


def comp_call(e, env):
    n, a = selfcall(e)
    if n in ("_token", "_pattern", "_constant"):
        if len(a) != 1:
            raise NotGenerated()
        v = lit(a[0])
        if n == "_constant":
            return lambda P, st: P.constant(st, v)
        if not isinstance(v, str):
            raise NotGenerated()
        if n == "_token":
            return lambda P, st: P.token(st, v)
        return lambda P, st: P.pattern(st, v)
    if n in ("_error", "_fail"):
        m = lit(a[0]) if a else "fail"
        return lambda P, st: P.error(st, m)
    if n in ("name_last_node", "add_last_node_to_name"):
        v = lit(a[0])
        f = n == "add_last_node_to_name"
        return lambda P, st: P.name_last(st, v, f)
    if n == "_define":
        ks = lit(a[0])
        ls = lit(a[1]) if len(a) > 1 else []
        return lambda P, st: P.define(ks, ls)
    if n in REPEAT:
        fs = []
        for x in a:
            if not isinstance(x, A.Name) or x.id not in env:
                raise NotGenerated()
            fs.append(env[x.id])
        f = REPEAT[n]
        return lambda P, st: f(P, st, *fs)
    if n in SIMPLE and not a:
        f = SIMPLE[n]
        return lambda P, st: f(P, st)
    if n.startswith("_") and n.endswith("_") and len(n) > 2 and not a and not n.startswith("__"):
        return lambda P, st: P.invoke(n, st)
    raise NotGenerated()


_compiled = {}


def compiled(fi):
    if fi not in _compiled:
        try:
            _compiled[fi] = comp_block(fi.node.body, {})
        except NotGenerated:
            _compiled[fi] = None
    return _compiled[fi]


def adopt(st, e):
    if e.st is not st and e.st is not None:
        st.heap, st.pc = e.st.heap, e.st.pc


TRIVIAL = {}


def trivial(fi):
    """'none' / 'same' for actions that only return None / their argument"""
    if fi not in TRIVIAL:
        r = None
        b = [s for s in fi.node.body if not (isinstance(s, A.Expr) and isinstance(s.value, A.Constant))]
        if len(fi.node.args.args) >= 2 and len(b) == 1 and not fi.deco:
            s = b[0]
            if isinstance(s, A.Pass):
                r = "none"
            elif isinstance(s, A.Return):
                if s.value is None or (isinstance(s.value, A.Constant) and s.value.value is None):
                    r = "none"
                elif isinstance(s.value, A.Name) and s.value.id == fi.node.args.args[1].arg:
                    r = "same"
        TRIVIAL[fi] = r
    return TRIVIAL[fi]


class Peg:
    def __init__(self, ip, oid, cls, text, cfg, sem):
        self.ip, self.oid, self.cls, self.cfg, self.sem = ip, oid, cls, cfg, sem
        self.text = Text(text)
        self.s = self.text.s
        self.pos = 0
        self.states = [PState()]
        self.cuts = [False]
        self.last = None
        self.memos = {}
        self.rules = set()
        self.nrules = 0
        self.ws = None
        w = cfg.get("whitespace", UNSET)
        if w is UNSET:
            self.ws = re.compile(r"(?m)\s+")
        elif w is not NONE and w is not C(""):
            if w.leaf is None or w.leaf[0] != "c" or not isinstance(w.leaf[2], str):
                raise Undecided("whitespace setting")
            self.ws = re.compile("(?m)" + w.leaf[2])
        for k in ("comments_re", "eol_comments_re", "comments", "eol_comments", "tokenizercls"):
            if cfg.get(k, NONE) is not NONE:
                raise Undecided("parser setting %s" % k)
        for k in ("ignorecase", "parseinfo"):
            if cfg.get(k, FALSE) not in (FALSE, NONE):
                raise Undecided("parser setting %s" % k)
        nc = cfg.get("namechars", C(""))
        self.namechars = set(nc.leaf[2])
        ng = cfg.get("nameguard", NONE)
        if ng is NONE:
            self.nameguard = bool(self.ws) or bool(self.namechars)
        elif ng in (TRUE, FALSE):
            self.nameguard = ng is TRUE
        else:
            raise Undecided("nameguard setting")
        if sem is not None and sem.cls is not None:
            for n in ("set_context", "_postproc"):
                if sem.cls.find(n)[0]:
                    raise Undecided("semantics with %s" % n)
        self.multi = ip.multi

    # -------------------------------------------------- stack
    @property
    def state(self):
        return self.states[-1]

    def push_ast(self, copy=False):
        s = self.state
        ast = PAst(s.ast) if copy else PAst()
        s.pos = self.pos
        self.states.append(PState(ast, self.pos))

    def pop_ast(self):
        self.states.pop()
        self.pos = self.state.pos

    def merge_ast(self, st):
        pos, ast, cst = self.pos, self.state.ast, self.state.cst
        self.states.pop()
        self.state.ast = ast
        self.extend(st, cst)
        self.pos = pos

    def push_cst(self):
        self.states.append(PState(self.state.ast))

    def pop_cst(self):
        ast = self.state.ast
        self.states.pop()
        self.state.ast = ast

    def aslist(self, st, v):
        """items when the value is a plain list, else None"""
        if isinstance(v, Closure) or v is None or isinstance(v, (tuple, PAst)):
            return None
        if isinstance(v, list):
            return v
        if v.leaf is None:
            for _, l in leaves(v):
                if l == NONE.leaf or (l[0] == "r" and st.heap[l[1]].kind == "list"):
                    raise Undecided("parse result of unclear shape")
            return None
        if v.leaf[0] == "r":
            o = st.heap[v.leaf[1]]
            if o.kind == "list" and not (o.meta or {}).get("closure"):
                items = self.ip.seq_items(st, o.data)
                if any(g is not TRUE for g, _ in items):
                    raise Undecided("parse result of unclear length")
                return [x for _, x in items]
        return None

    def append(self, st, node):
        self.last = node
        s = self.state
        prev = s.cst
        if prev is None:
            l = self.aslist(st, node)
            s.cst = node if l is None else list(l)
        else:
            l = self.aslist(st, prev)
            if l is None:
                s.cst = [prev, node]
            elif isinstance(prev, list):
                prev.append(node)
            else:
                s.cst = l + [node]
        return node

    def extend(self, st, node):
        self.last = node
        if node is None:
            return None
        s = self.state
        prev = s.cst
        nl = self.aslist(st, node)
        if prev is None:
            s.cst = node if nl is None else list(nl)
            return node
        pl = self.aslist(st, prev)
        if nl is not None:
            if pl is not None:
                s.cst = pl + nl
                if isinstance(prev, list):
                    prev.extend(nl)
                    s.cst = prev
            else:
                s.cst = [prev] + list(nl)
        elif pl is not None:
            if isinstance(prev, list):
                prev.append(node)
            else:
                s.cst = pl + [node]
        else:
            s.cst = [prev, node]
        return node

    def merge_cst(self, st):
        cst = self.state.cst
        self.pop_cst()
        self.extend(st, cst)
        return cst

    # -------------------------------------------------- ast
    def define(self, keys, lists):
        a = PAst()
        for k in keys:
            a.setdefault(safekey(k), None)
        for k in lists:
            a.setdefault(safekey(k), [])
        a.update(self.state.ast)
        self.state.ast = a

    def name_last(self, st, name, force):
        k = safekey(name)
        a = self.state.ast
        prev, v = a.get(k), self.last
        if prev is None:
            a[k] = [v] if force else v
            return
        l = self.aslist(st, prev)
        a[k] = (list(l) if l is not None else [prev]) + [v]

    # -------------------------------------------------- primitives
    def check(self):
        if self.ip.multi != self.multi:
            raise Undecided("parsing under a condition on values")

    def next_token(self):
        if self.ws:
            while True:
                m = self.ws.match(self.s, self.pos)
                self.text.match(self.ws.pattern, m, self.pos)
                if not m or m.end() == self.pos:
                    return
                self.pos = m.end()

    def error(self, st, item, cls=Fail):
        self.check()
        raise cls(st, self.pos, item)

    def token(self, st, tok):
        self.check()
        self.next_token()
        node = tok if isinstance(tok, Node) else None
        if node is not None:
            tok = word(node)
        p = self.pos
        if node is not None and node.leaf is not None and node.leaf[0] != "c":
            if not self.text.holds(p, node):
                pat = class_pattern(node.leaf)
                m = re.compile(pat).match(self.s, p)
                self.text.match(pat, m, p)
                if m:
                    raise Undecided("a word that may be another word")
                self.error(st, tok)
        else:
            pat = re.escape(tok)
            self.text.match(pat, re.compile(pat).match(self.s, p), p)
            if not self.s.startswith(tok, p):
                self.error(st, tok)
        self.pos = q = p + len(tok)
        if self.nameguard and tok and tok[0].isalpha():
            pat = r"[0-9A-Za-z%s]" % "".join(re.escape(c) for c in sorted(self.namechars))
            self.text.match(pat, re.compile(pat).match(self.s, q), q)
        if self.nameguard and tok and tok[0].isalpha() and q < len(self.s) and \
                self.isname(self.s[q]) and all(self.isname(c) for c in tok):
            self.pos = p
            self.error(st, tok)
        return self.append(st, node if node is not None else C(tok))

    def isname(self, c):
        return c.isalnum() or c in self.namechars

    def pattern(self, st, pat):
        self.check()
        try:
            m = re.compile(pat, re.MULTILINE).match(self.s, self.pos)
        except re.error:
            self.ip.raise_(st, self.ip.exc("PatternError"))
            raise Dead()
        self.text.match(pat, m, self.pos)
        if m is None:
            self.error(st, pat, PatternFail)
        n = m.re.groups
        if n == 1:
            v = self.group(m, 1)
        elif n:
            v = tuple(self.group(m, i + 1) for i in range(n))
        else:
            v = self.text.slice(m.start(), m.end())
        self.pos = m.end()
        return self.append(st, v)

    def group(self, m, i):
        a, b = m.span(i)
        return C("") if a < 0 else self.text.slice(a, b)

    def constant(self, st, v):
        self.next_token()
        if isinstance(v, str):
            try:
                v = A.literal_eval(v.strip())
            except (ValueError, SyntaxError):
                if "{" in v or "\n" in v:
                    raise Undecided("interpolated constant")
        return self.append(st, None if v is None else C(v))

    def void(self, st):
        self.last = None

    def cut(self, st):
        self.check()
        self.cuts[-1] = True
        self.memos = {k: v for k, v in self.memos.items() if k[0] >= self.pos}

    def check_eof(self, st):
        self.check()
        self.next_token()
        if self.pos < len(self.s):
            self.error(st, "end of text")

    def any(self, st):
        self.check()
        if self.pos >= len(self.s):
            self.error(st, "any")
        self.pos += 1
        return self.append(st, self.text.slice(self.pos - 1, self.pos))

    # -------------------------------------------------- context managers
    def try_(self, st, f):
        self.push_ast(True)
        self.last = None
        try:
            f(self, st)
            self.merge_ast(st)
        except Fail as e:
            adopt(st, e)
            self.pop_ast()
            raise

    def option(self, st, f):
        self.check()
        self.last = None
        self.cuts.append(False)
        try:
            self.try_(st, f)
            raise OptOK(st)
        except CutFail:
            raise
        except Fail as e:
            adopt(st, e)
            if self.cuts[-1]:
                raise CutFail(st, e.pos, e.item)
        finally:
            self.cuts.pop()

    def choice(self, st, f):
        self.last = None
        try:
            f(self, st)
        except OptOK as e:
            adopt(st, e)

    def optional(self, st, f):
        self.last = None
        self.choice(st, lambda P, s: P.option(s, f))

    def grp(self, st, f):
        self.push_cst()
        try:
            f(self, st)
            self.merge_cst(st)
        except Fail as e:
            adopt(st, e)
            self.pop_cst()
            raise

    def if_(self, st, f):
        self.push_ast()
        try:
            f(self, st)
        except Fail as e:
            adopt(st, e)
            raise
        finally:
            self.pop_ast()

    def ifnot(self, st, f):
        try:
            self.if_(st, f)
        except Fail as e:
            adopt(st, e)
        else:
            self.error(st, "lookahead")

    # -------------------------------------------------- repetition
    def isolate(self, st, f, drop=False):
        self.push_cst()
        try:
            f(self, st)
            cst = self.state.cst
        except Fail as e:
            adopt(st, e)
            raise
        finally:
            self.pop_cst()
        l = self.aslist(st, cst)
        if l is not None:
            cst = Closure(l)
        if not drop:
            self.append(st, cst)
        return cst

    def repeat(self, st, f, sep=None, drop=False):
        while True:
            def one(P, s):
                p = P.pos
                if sep:
                    P.isolate(s, sep, drop)
                    P.cut(s)
                P.isolate(s, f)
                if P.pos == p:
                    P.error(s, "empty closure")
            self.last = None
            try:
                self.option(st, one)
                return
            except OptOK as e:
                adopt(st, e)

    def closure(self, st, f, sep=None, drop=False, positive=False):
        self.push_cst()
        try:
            if positive:
                f(self, st)
                self.state.cst = [self.state.cst]
            else:
                self.state.cst = []

                def first(P, s):
                    f(P, s)
                    P.state.cst = [P.state.cst]
                self.optional(st, first)
            self.repeat(st, f, sep, drop)
            self.state.cst = Closure(self.aslist(st, self.state.cst))
            return self.merge_cst(st)
        except Fail as e:
            adopt(st, e)
            self.pop_cst()
            raise

    def empty_closure(self, st):
        return self.append(st, Closure())

    # -------------------------------------------------- rules
    def invoke(self, attr, st):
        """self._name_()"""
        c, fi = self.cls.find(attr)
        if fi is None or not isinstance(fi, FuncInfo):
            self.ip.raise_(st, self.ip.exc("AttributeError", attr))
            raise Dead()
        if "tatsumasu" not in fi.deco:
            return self.ip.call_func(("func", fi, None), [R(self.oid)], {}, st)
        return self.call(fi, st)

    def call(self, fi, st):
        self.check()
        if "leftrec" in fi.deco or "isname" in fi.deco:
            raise Undecided("rule kind of %s" % fi.qual)
        name = fi.name[1:-1]
        start = self.pos
        self.nrules += 1
        self.ip.tick()
        try:
            self.last = None
            upper = name.lstrip("_")[:1].isupper()
            if not upper:
                self.next_token()
            key = (self.pos, fi)
            m = self.memos.get(key)
            if m is None:
                m = self.run(fi, name, key, st, upper)
            elif isinstance(m, Fail):
                raise type(m)(st, m.pos, m.item)
            node, self.pos = m
            self.append(st, node)
            return node
        except PatternFail as e:
            # reported as a plain failure of this rule; the position stays where the rule gave up
            adopt(st, e)
            raise Fail(st, self.pos, name)
        except Fail as e:
            adopt(st, e)
            self.pos = start
            raise

    def run(self, fi, name, key, st, upper):
        memo = "nomemo" not in fi.deco
        if memo:
            self.memos[key] = Fail(None, self.pos, "left recursion")
        self.ip.reached.add(fi)
        self.push_ast()
        try:
            if not upper:
                self.next_token()
            f = compiled(fi)
            if f is not None:
                f(self, st)
            else:
                self.interp(fi, st)
            node = self.node(st)
            node = self.action(name, node, st)
            r = (node, self.pos)
            if memo:
                self.memos[key] = r
            return r
        except Fail as e:
            adopt(st, e)
            if memo:
                self.memos[key] = type(e)(None, e.pos, e.item)
            raise
        finally:
            self.pop_ast()

    def interp(self, fi, st):
        """a hand-written rule method"""
        try:
            self.ip.call_func(("func", fi, None, "impl"), [R(self.oid)], {}, st)
        except OptOK:
            raise Undecided("option outside a choice")

    def node(self, st):
        s = self.state
        if not s.ast:
            l = self.aslist(st, s.cst)
            return tuple(l) if l is not None else s.cst
        if "@" in s.ast:
            return s.ast["@"]
        return s.ast

    def tonode(self, st, v):
        ip = self.ip
        if v is None:
            return NONE
        if isinstance(v, PAst):
            return ip.alloc(st, "ast", tuple((C(k), TRUE, self.tonode(st, x)) for k, x in v.items()))
        if isinstance(v, tuple):
            return T("tuple", *[self.tonode(st, x) for x in v])
        if isinstance(v, list):
            return ip.alloc(st, "list", tuple((TRUE, self.tonode(st, x)) for x in v),
                            meta={"closure": True} if isinstance(v, Closure) else None)
        return v

    def action(self, name, node, st):
        """semantic action, if any; the result of the rule as one value"""
        node = self.tonode(st, node)
        fi = None
        if self.sem is not None:
            n = name + "_" if keyword.iskeyword(name) else name
            o = st.heap[self.sem.leaf[1]]
            if n in o.data and not (o.cls.find(n)[0]):
                v = o.data[n]
                if v.leaf is None or v.leaf[0] in ("func", "bound", "pyfn", "class"):
                    raise Undecided("computed action %s" % n)
            for m in (n, "_default"):
                c, fi = o.cls.find(m)
                if fi is None and o.cls.find("__getattr__")[0]:
                    raise Undecided("computed action %s" % m)
                if fi is not None and not isinstance(fi, FuncInfo):
                    v = self.ip.getattr(L(self.sem.leaf), m, st)
                    if v.leaf is None:
                        raise Undecided("computed action %s" % m)
                    if v.leaf[0] not in ("func", "bound", "pyfn", "class", "partial", "bm"):
                        fi = None       # nothing that can be called
                        continue
                    r = self.guarded(lambda: self.ip.call(v, [node], {}, st), st)
                    r = restrict(r, st.pc)
                    return None if r is NONE else r
                if fi is not None:
                    break
        if fi is None:
            return None if node is NONE else node
        self.ip.reached.add(fi)
        t = trivial(fi)
        if t == "none":
            return None
        if t == "same":
            return None if node is NONE else node
        r = self.guarded(lambda: self.ip.call_method(L(self.sem.leaf), fi.name, [node], {}, st), st)
        r = restrict(r, st.pc)
        return None if r is NONE else r

    def guarded(self, f, st):
        """run an action; FailedSemantics makes the rule fail, other exceptions end the parse"""
        ip = self.ip
        from .core import new_oid
        before = new_oid()
        ip.excs.append([])
        dead = False
        try:
            r = f()
        except Dead:
            dead = True
        finally:
            pend = ip.excs.pop()
        fails = []
        for es, ex in pend:
            for g, l in leaves(restrict(ex, es.pc)):
                name = l[2] if l[0] == "t" and l[1] == "exc" else "Exception"
                mro = ip.exc_mro(name)
                if "FailedSemantics" in mro or "FailedParse" in mro:
                    fails.append(es)
                else:
                    ip.excs[-1].append((es.fork(conj(es.pc, g)), L(l)))
        if fails:
            if not dead or len(pend) != len(fails):
                raise Undecided("semantic failure depends on values")
            adopt(st, Fail(fails[0], 0, ""))
            raise Fail(st, self.pos, "semantics")
        if dead:
            raise Dead()
        self.gc(st, before, new_oid())
        return r

    def gc(self, st, a, b):
        """frames of finished calls are not needed any more"""
        h = st.heap
        for i in range(a + 1, b):
            o = h.get(i)
            if o is not None and o.kind == "frame":
                fi = (o.meta or {}).get("fi")
                if fi is None:
                    p = (o.meta or {}).get("parent")
                    if p is not None and (p not in h or p > a and not keeps((h[p].meta or {}).get("fi"))):
                        del h[i]
                elif not keeps(fi):
                    del h[i]


_keeps = {}


def keeps(fi):
    if fi is None:
        return True
    if fi not in _keeps:
        _keeps[fi] = any(isinstance(n, (A.Lambda, A.FunctionDef)) and n is not fi.node for n in A.walk(fi.node))
    return _keeps[fi]


CM = {"_choice": Peg.choice, "_option": Peg.option, "_optional": Peg.optional, "_group": Peg.grp, "_if": Peg.if_,
      "_ifnot": Peg.ifnot, "_try": Peg.try_}


def _rep(positive, sep, drop):
    def f(P, st, block, sepf=None):
        return P.closure(st, block, sepf if sep else None, drop, positive)
    return f


REPEAT = {"_closure": _rep(False, False, False), "_positive_closure": _rep(True, False, False),
          "_gather": _rep(False, True, True), "_positive_gather": _rep(True, True, True),
          "_join": _rep(False, True, False), "_positive_join": _rep(True, True, False),
          "_isolate": lambda P, st, f: P.isolate(st, f)}
SIMPLE = {"_cut": Peg.cut, "_void": Peg.void, "_check_eof": Peg.check_eof, "_any": Peg.any,
          "_empty_closure": Peg.empty_closure}


# ------------------------------------------------------------------ interface to the interpreter
def is_parser(cls):
    return isinstance(cls, ClassInfo) and any(e in ("tatsu.parsing.Parser", "tatsu.contexts.ParseContext")
                                              for e in cls.ext_bases())


def cfgdict(ip, st, node):
    if node is NONE or node is None:
        return {}
    if node.leaf is None or node.leaf[0] != "r":
        raise Undecided("parser configuration")
    return dict(st.heap[node.leaf[1]].data)


FIELDS = {"owner", "name", "filename", "encoding", "start", "start_rule", "rule_name", "comments_re", "eol_comments_re",
          "tokenizercls", "semantics", "comment_recovery", "memoize_lookaheads", "colorize", "trace", "trace_filename",
          "trace_length", "trace_separator", "grammar", "left_recursion", "comments", "eol_comments", "keywords",
          "ignorecase", "namechars", "nameguard", "whitespace", "parseinfo"}


def mkconfig(ip, st, data):
    return ip.alloc(st, "inst", data, cls="tatsu.infos.ParserConfig")


def replaced(data, kwargs):
    d = dict(data)
    for k, v in kwargs.items():
        if k in FIELDS and v is not NONE:
            d[k] = v
    return d


def config_new(ip, st, a, k):
    k = dict(k)
    base = a[0] if a else k.pop("config", NONE)
    k.pop("owner", None)
    d = replaced({}, cfgdict(ip, st, base))
    return mkconfig(ip, st, replaced(d, k))


def config_init(ip, st, a, k):
    if a:
        raise Undecided("positional parser settings")
    for n in k:
        if n not in FIELDS:
            ip.raise_(st, ip.exc("TypeError"))
            raise Dead()
    return mkconfig(ip, st, dict(k))


def config_field(ip, st, o, name):
    if name in FIELDS:
        return o.data.get(name, NONE)
    return None


def config_method(ip, st, l, name, args, kwargs):
    d = cfgdict(ip, st, L(l))
    if name == "replace":
        return mkconfig(ip, st, replaced(d, kwargs))
    if name == "replace_config":
        o = args[0] if args else kwargs.get("other", NONE)
        return mkconfig(ip, st, replaced(d, cfgdict(ip, st, o)))
    raise Undecided("ParserConfig.%s" % name)


def parser_method(ip, st, l, name, args, kwargs):
    """methods a parser object inherits from TatSu"""
    oid = l[1]
    o = st.heap[oid]
    if name == "__init__":
        c = args[0] if args else kwargs.get("config", NONE)
        rest = {k: v for k, v in kwargs.items() if k != "config"}
        d = dict(o.data)
        d["config"] = mkconfig(ip, st, replaced(replaced({}, cfgdict(ip, st, c)), rest))
        st.heap[oid] = o.but(d)
        return NONE
    if name == "parse":
        return parse(ip, st, oid, o, args, kwargs)
    P = ip.pegs.get(oid)
    if P is None:
        raise Undecided("parser method %s outside a parse" % name)
    if name in CM:
        return L(("pegcm", name, oid))
    if name in REPEAT:
        fs = [lambda P, s, f=f: ip.call(f, [], {}, s) for f in args]
        return P.tonode(st, REPEAT[name](P, st, *fs))
    if name in SIMPLE:
        return P.tonode(st, SIMPLE[name](P, st))
    if name in ("_token", "_pattern", "_constant", "_error", "_fail", "name_last_node", "add_last_node_to_name"):
        def one(la, s):
            if la[0] == "top":
                raise Undecided("unknown token")
            n = L(la)
            if name == "_token":
                return P.tonode(s, P.token(s, n if la[0] != "c" else la[2]))
            if la[0] != "c":
                raise Undecided("%s of %s" % (name, show_leaf(la)))
            if name == "_pattern":
                return P.tonode(s, P.pattern(s, la[2]))
            if name == "_constant":
                return P.tonode(s, P.constant(s, la[2]))
            if name in ("_error", "_fail"):
                P.error(s, str(la[2]))
            P.name_last(s, la[2], name != "name_last_node")
            return NONE
        v = args[0] if args else C("fail")
        v = restrict(v, st.pc)
        if v.leaf is None:
            raise Undecided("gated token")
        return one(v.leaf, st)
    if name == "_define":
        def names(n):
            return [x.leaf[2] for _, x in ip.seq_items(st, ip.iterate(n, st))]
        P.define(names(args[0]), names(args[1]) if len(args) > 1 else [])
        return NONE
    if name == "last_node":
        return P.tonode(st, P.last)
    raise Undecided("parser method %s" % name)


def with_(ip, st, leaf, body):
    P = ip.pegs[leaf[2]]
    CM[leaf[1]](P, st, lambda P, s: body(s))


def parse(ip, st, oid, o, args, kwargs):
    kwargs = dict(kwargs)
    text = args[0] if args else kwargs.pop("text", NONE)
    cfg = cfgdict(ip, st, restrict(o.data.get("config", NONE), st.pc))
    c2 = args[1] if len(args) > 1 else kwargs.pop("config", NONE)
    cfg = replaced(replaced(cfg, cfgdict(ip, st, c2)), kwargs)
    sem = cfg.get("semantics", NONE)
    if sem is NONE:
        sem = None
    elif sem.leaf is None or sem.leaf[0] != "r" or not isinstance(st.heap[sem.leaf[1]].cls, ClassInfo):
        raise Undecided("semantics of the parser")
    start = NONE
    for k in ("start_rule", "rule_name", "start"):
        if cfg.get(k, NONE) not in (NONE, C("")):
            start = cfg[k]
            break
    start = start.leaf[2] if start is not NONE else "start"

    def go(tl, s):
        P = Peg(ip, oid, o.cls, L(tl), cfg, None)
        P.sem = sem
        if sem is not None:
            for n in ("set_context", "_postproc"):
                if s.heap[sem.leaf[1]].cls.find(n)[0]:
                    raise Undecided("semantics with %s" % n)
        old = ip.pegs.get(oid)
        ip.pegs[oid] = P
        depth = len(ip.stack)
        try:
            if not o.cls.find("_%s_" % start)[0]:
                ip.raise_(s, ip.exc("FailedParse"))
                raise Dead()
            r = P.invoke("_%s_" % start, s)
            ip.texts.append((P.s, True))
            return P.tonode(s, r)
        except Fail as e:
            adopt(s, e)
            ip.texts.append((P.s, False))
            ip.raise_(s, ip.exc("FailedParse"))
            raise Dead()
        finally:
            del ip.stack[depth:]
            ip.nrules += P.nrules
            if old is None:
                ip.pegs.pop(oid, None)
            else:
                ip.pegs[oid] = old
    return ip.split(text, st, go)
