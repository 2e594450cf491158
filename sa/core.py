"""Program model (modules, classes, functions from source) and abstract state."""
import ast
import builtins
import os

from .dd import *
from . import dd


class Undecided(Exception):
    """a construct outside the modelled subset was met"""


class Dead(Exception):
    """control does not continue past this point"""


UNSET = L(("unset",))


class FuncInfo:
    def __init__(self, node, module, name, cls=None, deco=()):
        self.node, self.module, self.name, self.cls, self.deco = node, module, name, cls, deco
        self.is_gen = False
        self.outer = None       # frame of the function around the class
        if not isinstance(node, ast.Lambda):
            for n in walk_own(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True
        self.locals = None

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def where(self):
        return "%s:%d %s" % (self.module.path, self.node.lineno, self.qual)


def walk_own(fn):
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, node, module, name):
        self.node, self.module, self.name = node, module, name
        self.bases = []     # Nodes (class / ext leaves)
        self.members = {}   # name -> Node | FuncInfo
        self.assigns = {}
        self.ordering = False
        self.dataclass = None

    def mro(self):
        seqs = []
        r = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                seqs.append(b.mro())
            else:
                seqs.append([b])
        seqs.append([b for b in self.bases])
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            r.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return r

    def mro_names(self):
        r = []
        for c in self.mro():
            if isinstance(c, ClassInfo):
                r.append(c.name)
            else:
                r.extend(ext_mro(c))
        if "object" not in r:
            r.append("object")
        return r

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo):
                if name in c.members:
                    return c, c.members[name]
        return None, None

    def ext_bases(self):
        return [c for c in self.mro() if not isinstance(c, ClassInfo)]


EXC_PARENTS = {
    "AddressValueError": "ValueError", "NetmaskValueError": "ValueError",
    "HTTPError": "URLError", "URLError": "OSError", "ParseError": "SyntaxError",
    "FailedParse": "ParseException", "ParseException": "TatSuException", "TatSuException": "Exception",
    "FailedSemantics": "ParseException", "FailedToken": "FailedParse",
    "NoReturnDiverges": "RuntimeError",
}


def ext_mro(dotted):
    n = dotted.split(".")[-1]
    if n in EXC_PARENTS:
        return [n] + ext_mro(EXC_PARENTS[n])
    b = getattr(builtins, n, None)
    if isinstance(b, type):
        return [c.__name__ for c in b.__mro__]
    if n == "AST":
        return ["AST", "dict", "object"]
    if n == "defaultdict":
        return ["defaultdict", "dict", "object"]
    return [n, "object"]


class ModuleInfo:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.names = {}     # name -> ('def', x) | ('lazy', expr) | ('import', ...) | Node
        self.load(self.tree.body)

    def load(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef,)):
                self.names[s.name] = ("node", L(("func", FuncInfo(s, self, s.name, deco=decos(s)), None)))
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ("cls", self.mkclass(s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ("mod", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                m = s.module or ""
                if s.level:
                    base = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        base = base[:-1]
                    base = base[: len(base) - s.level + 1]
                    m = ".".join(base + ([m] if m else []))
                for a in s.names:
                    if a.name == "*":
                        self.names.setdefault("*", ("star", []))[1].append(m)
                    else:
                        self.names[a.asname or a.name] = ("from", m, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("lazy", s.value)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self.names[a.id] = ("lazy", b)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    self.names[s.target.id] = ("lazy", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self.load(s.body)

    def mkclass(self, s):
        c = ClassInfo(s, self, s.name)
        c.base_exprs = s.bases
        for d in s.decorator_list:
            n = dotted(d if not isinstance(d, ast.Call) else d.func) or ""
            if n.endswith("total_ordering"):
                c.ordering = True
            if n.endswith("dataclass"):
                c.dataclass = d
        self.classbody(c, s.body)
        return c

    def classbody(self, c, body):
        for m in body:
            if isinstance(m, ast.FunctionDef):
                c.members[m.name] = FuncInfo(m, self, m.name, c, decos(m))
            elif isinstance(m, ast.Assign):
                for t in m.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = ("expr", m.value)
            elif isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name):
                c.assigns[m.target.id] = m.value
                if m.value is not None:
                    c.members[m.target.id] = ("expr", m.value)
            elif isinstance(m, ast.ClassDef):
                c.members[m.name] = ("cls", self.mkclass(m))


def decos(fn):
    r = []
    for d in fn.decorator_list:
        n = dotted(d.func if isinstance(d, ast.Call) else d)
        r.append((n or "?").split(".")[-1])
    return tuple(r)


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


class Program:
    """modules reachable under the source root, plus specification modules"""

    def __init__(self, root, extra=None):
        self.root = root
        self.extra = extra or {}    # module name -> path
        self.mods = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.extra.get(name)
        if path is None:
            base = os.path.join(self.root, *name.split("."))
            if os.path.isfile(base + ".py"):
                path = base + ".py"
            elif os.path.isfile(os.path.join(base, "__init__.py")):
                path = os.path.join(base, "__init__.py")
        self.mods[name] = None
        if path is not None:
            self.mods[name] = ModuleInfo(self, name, path)
        return self.mods[name]

    def lookup(self, mod, name, _seen=()):
        """resolve a module-level name -> Node | ('lazy', module, expr) | None"""
        if (mod.name, name) in _seen:
            return None
        d = mod.names.get(name)
        if d is None:
            if "*" in mod.names:
                for m in mod.names["*"][1]:
                    m2 = self.module(m)
                    if m2:
                        r = self.lookup(m2, name, _seen + ((mod.name, name),))
                        if r is not None:
                            return r
            return None
        if d[0] == "node":
            return d[1]
        if d[0] == "cls":
            c = d[1]
            self.setup(c)
            return L(("class", c))
        if d[0] == "mod":
            m2 = self.module(d[1])
            return L(("mod", m2)) if m2 else L(("ext", d[1]))
        if d[0] == "from":
            m2 = self.module(d[1])
            if m2:
                r = self.lookup(m2, d[2], _seen + ((mod.name, name),))
                if r is None:
                    m3 = self.module(d[1] + "." + d[2])
                    if m3:
                        return L(("mod", m3))
                return r
            m3 = self.module(d[1] + "." + d[2])
            if m3:
                return L(("mod", m3))
            return L(("ext", d[1] + "." + d[2]))
        if d[0] == "lazy":
            return ("lazy", mod, d[1])
        return None

    def setup(self, c):
        if c.bases or not c.base_exprs:
            return
        for b in c.base_exprs:
            c.bases.append(self.resolve_base(c.module, b))

    def resolve_base(self, mod, e):
        n = dotted(e)
        if n is None:
            return "?"
        parts = n.split(".")
        r = self.lookup(mod, parts[0])
        if r is None:
            return "builtins." + n
        if isinstance(r, tuple):
            return "?"
        for p in parts[1:]:
            l = r.leaf
            if l[0] == "ext":
                r = L(("ext", l[1] + "." + p))
            elif l[0] == "mod":
                r = self.lookup(l[1], p)
                if r is None or isinstance(r, tuple):
                    return "?"
        l = r.leaf
        if l[0] == "class":
            return l[1]
        if l[0] == "ext":
            return l[1]
        return "?"

    def cls(self, modname, name):
        m = self.module(modname)
        if m is None:
            raise MissingAnchor("module %s" % modname)
        r = self.lookup(m, name)
        if r is None or isinstance(r, tuple) or r.leaf[0] != "class":
            raise MissingAnchor("class %s in %s" % (name, modname))
        return r.leaf[1]


class MissingAnchor(Exception):
    pass


class Obj:
    __slots__ = ("kind", "cls", "data", "meta")

    def __init__(self, kind, cls=None, data=None, meta=None):
        self.kind, self.cls, self.data, self.meta = kind, cls, data, meta

    def but(self, data):
        return Obj(self.kind, self.cls, data, self.meta)


class State:
    __slots__ = ("heap", "pc")

    def __init__(self, heap=None, pc=TRUE):
        self.heap = {} if heap is None else heap
        self.pc = pc

    def fork(self, pc=None):
        return State(dict(self.heap), self.pc if pc is None else pc)


_oid = [0]


def new_oid():
    _oid[0] += 1
    return _oid[0]


SYM = {}    # symbol name -> tags


def sym(name, **tags):
    n = T("sym", name)
    if tags or name not in SYM:
        SYM[name] = tags
    return n


TERMTY = {
    "ip_address": "addr", "ip_iface": "iface", "net": "net", "net1": "net", "netaddr": "addr", "netmask": "addr",
    "hostmask": "addr", "bcast": "addr", "int": "int", "bits": "int", "fmt": "str", "version": "int",
    "prefixlen": "int", "len": "int", "tuple": "tuple", "strm": "str", "unescape": "str", "now": "datetime",
    "datetime": "datetime", "fromtimestamp": "datetime", "slice": None, "exc": "exc", "word": "str",
    "numaddr": "int", "strftime": "str", "days": "int", "typename": "str", "ntuple": "tuple", "arith": "int",
    "iface_ip": "addr", "time": "time",
}


def tyof(leaf):
    if leaf[0] == "c":
        return leaf[1].__name__
    if leaf[0] == "t":
        if leaf[1] == "sym":
            return SYM.get(leaf[2], {}).get("ty")
        return TERMTY.get(leaf[1])
    return None


def tag(leaf, k, d=None):
    if leaf[0] == "t" and leaf[1] == "sym":
        return SYM.get(leaf[2], {}).get(k, d)
    return d
