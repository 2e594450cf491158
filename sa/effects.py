"""Which outside effects the library can have, from its syntax trees.

Every reference to a name of another package, to an effectful builtin and to an
effectful method is a site.  A site is classified (opens a file for reading,
writes, starts a process, runs text as code, uses the network, unknown), and
whether the enclosing function may have it is decided over the references to
that function: a function all of whose references lie in functions that may, may."""
import ast
import builtins
import os

READ, WRITE, PROCESS, CODE, NET, UNKNOWN = "opens a file", "writes", "starts a process", "runs text as code", "uses the network", "unknown"

PURE = {"collections", "datetime", "math", "ipaddress", "fnmatch", "logging", "itertools", "functools", "typing", "operator", "string", "re",
        "html", "copy", "enum", "dataclasses", "abc", "types", "bisect", "heapq", "textwrap", "contextlib", "warnings", "weakref", "traceback",
        "time", "tatsu", "json", "xml", "pprint", "sys", "numbers", "decimal", "fractions", "random", "hashlib", "base64", "struct", "unicodedata",
        "urllib.parse", "urllib.error", "calendar", "keyword", "locale", "inspect", "binascii", "zlib", "uuid", "secrets", "statistics", "cmath",
        "array", "queue", "graphlib", "zoneinfo", "gettext", "errno", "stringprep", "difflib", "reprlib", "__future__", "typing_extensions",
        "threading", "gc", "atexit", "csv", "ast", "os.path", "posixpath", "ntpath", "token", "tokenize", "codecs", "io", "pathlib", "netaddr",
        "collections.abc", "xml.etree", "xml.etree.ElementTree", "attr", "attrs", "argparse", "optparse", "socket", "os", "urllib", "builtins", "glob"}
EFFECTS = {
    "subprocess": PROCESS, "multiprocessing": PROCESS, "pty": PROCESS, "popen2": PROCESS, "commands": PROCESS, "concurrent.futures.ProcessPoolExecutor": PROCESS,
    "os.system": PROCESS, "os.popen": PROCESS, "os.fork": PROCESS, "os.forkpty": PROCESS, "os.kill": PROCESS, "os.killpg": PROCESS, "os.startfile": PROCESS,
    "os.abort": PROCESS, "os._exit": PROCESS, "signal": PROCESS, "webbrowser": PROCESS, "asyncio.create_subprocess_exec": PROCESS,
    "asyncio.create_subprocess_shell": PROCESS,
    "pickle": CODE, "marshal": CODE, "shelve": CODE, "runpy": CODE, "code": CODE, "codeop": CODE, "imp": CODE, "importlib": CODE, "ctypes": CODE, "cffi": CODE,
    "yaml": CODE, "timeit": CODE, "pdb": CODE, "bdb": CODE, "pydoc": CODE, "jinja2": CODE, "dill": CODE, "cloudpickle": CODE,
    "logging.config": CODE, "numexpr": CODE,
    "urllib.request": NET, "http": NET, "ftplib": NET, "smtplib": NET, "telnetlib": NET, "poplib": NET, "imaplib": NET, "nntplib": NET, "xmlrpc": NET,
    "requests": NET, "httpx": NET, "urllib3": NET, "aiohttp": NET, "ssl": NET, "socketserver": NET, "dns": NET, "paramiko": NET, "asyncio": NET, "urllib2": NET,
    "socket.socket": NET, "socket.create_connection": NET, "socket.create_server": NET, "socket.gethostbyname": NET, "socket.gethostbyname_ex": NET,
    "socket.gethostbyaddr": NET, "socket.getaddrinfo": NET, "socket.getnameinfo": NET, "socket.getfqdn": NET, "socket.socketpair": NET,
    "socket.fromfd": NET, "logging.handlers": NET,
    "tempfile": WRITE, "shutil": WRITE, "sqlite3": WRITE, "dbm": WRITE, "zipfile": WRITE, "tarfile": WRITE, "logging.FileHandler": WRITE, "fcntl": WRITE,
    "mmap": WRITE, "syslog": WRITE, "pathlib.Path.write_text": WRITE, "pathlib.Path.write_bytes": WRITE, "py_compile": WRITE, "compileall": WRITE,
    "tracemalloc.Snapshot.dump": WRITE, "winreg": WRITE,
    "io.open": "open", "io.open_code": READ, "io.FileIO": "open", "codecs.open": "open", "os.fdopen": "open", "gzip": "open", "bz2": "open", "lzma": "open",
    "os.open": WRITE, "builtins.open": "open", "linecache": READ, "fileinput": READ, "glob": READ, "tokenize.open": READ,
    "xml.etree.ElementTree.parse": READ, "xml.etree.ElementTree.iterparse": READ, "xml.dom.minidom.parse": READ, "xml.sax.parse": READ,
    "xml.etree.ElementTree.ElementTree.write": WRITE, "importlib.resources": READ, "importlib.metadata": READ, "pkgutil": READ, "pkg_resources": READ,
    "configparser": READ, "netrc": READ, "os.listdir": READ, "os.scandir": READ, "os.walk": READ, "os.read": READ, "os.stat": READ,
    "os.path.exists": READ, "os.path.isfile": READ, "os.path.isdir": READ, "os.path.getsize": READ, "os.path.getmtime": READ,
    "tatsu.util.generic_main": READ, "sys.stdin": READ,
}
for n in ("execl", "execle", "execlp", "execv", "execve", "execvp", "spawnl", "spawnle", "spawnlp", "spawnv", "spawnve", "spawnvp", "posix_spawn", "posix_spawnp"):
    EFFECTS["os." + n] = PROCESS
for n in ("remove", "unlink", "rename", "renames", "replace", "mkdir", "makedirs", "rmdir", "removedirs", "symlink", "link", "chmod", "chown", "truncate", "write",
          "mkfifo", "mknod", "utime", "putenv", "unsetenv", "chdir", "fchdir", "chroot", "umask", "setuid", "setgid", "pipe", "sendfile", "ftruncate", "environ.update"):
    EFFECTS["os." + n] = WRITE
NOTHING = {"os.linesep", "os.sep", "os.environ", "os.environ.get", "os.getenv", "os.fspath", "os.PathLike", "os.name", "os.path.join", "socket.getservbyname", "socket.getservbyport",
           "socket.error", "socket.AF_INET", "socket.AF_INET6", "socket.inet_aton", "socket.inet_pton", "socket.inet_ntop", "socket.inet_ntoa", "socket.gaierror", "importlib", "glob.fnmatch",
           "socket.IPPROTO_TCP", "socket.IPPROTO_UDP", "socket.getprotobyname", "socket.htons", "socket.ntohs", "socket.herror", "http.HTTPStatus", "socket.timeout", "signal",
           "asyncio.TimeoutError", "gzip.decompress", "bz2.decompress", "lzma.decompress", "importlib.import_module", "urllib.request", "http", "subprocess"}
BUILTINS = {"open": "open", "exec": CODE, "eval": CODE, "compile": CODE, "__import__": CODE, "input": READ, "breakpoint": PROCESS}
METHODS = {"write_text": WRITE, "write_bytes": WRITE, "unlink": WRITE, "rmdir": WRITE, "mkdir": WRITE, "touch": WRITE, "symlink_to": WRITE, "hardlink_to": WRITE,
           "chmod": WRITE, "lchmod": WRITE, "read_text": READ, "read_bytes": READ, "popen": PROCESS, "check_output": PROCESS, "check_call": PROCESS, "Popen": PROCESS,
           "urlopen": NET, "urlretrieve": NET, "gethostbyname": NET, "getaddrinfo": NET, "create_connection": NET, "sendall": NET, "gethostbyaddr": NET, "getfqdn": NET}
# methods of values of builtin types: a reference to one of these says nothing about a function of the same name
COMMON = {n for t in (str, bytes, list, dict, set, tuple, frozenset, int, float) for n in dir(t)} | {"read", "close", "write", "decode", "readline", "readlines", "findall", "find", "match"}


def kind_of(d):
    """effect of a name of another package; None when it is in no table, "" when it has none"""
    parts = d.split(".")
    for i in range(len(parts), 0, -1):
        h = ".".join(parts[:i])
        if h in NOTHING and (i == len(parts) or h not in EFFECTS):
            return ""
        if h in EFFECTS:
            return EFFECTS[h]
    return None


class Fn:
    def __init__(self, qual, node, path, cls, mod):
        self.qual, self.node, self.path, self.cls, self.mod = qual, node, path, cls, mod
        self.name = qual.rsplit(".", 1)[-1]
        self.sites = []         # (kind, what, line)
        self.refs = []          # (how, name): "bare" name, "self"/class name, or any receiver
        self.externals = 0
        self.mains = False      # runs only when the module is a program

    @property
    def where(self):
        return "%s:%d" % (self.path, getattr(self.node, "lineno", 1))


class Scan:
    def __init__(self, root, package, rel):
        self.fns, self.classes, self.modules = [], {}, {}
        self.package = package
        base = os.path.join(root, *package.split("."))
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    with open(p, encoding="utf-8") as h:
                        src = h.read()
                    tree = ast.parse(src, p)
                    name = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    self.module(name[:-9] if name.endswith(".__init__") else name, tree, os.path.relpath(p, rel))
        self.local = {f.name for f in self.fns}

    # ------------------------------------------------------------ collection
    def module(self, name, tree, path):
        self.modules[name] = tree
        top = Fn(name + ".<module>", tree, path, None, name)
        self.fns.append(top)
        imports = {}
        for n in ast.walk(tree):        # an import anywhere names the module everywhere in the file
            self.imports(n, imports, name)
        bound = {t.id for n in tree.body for t in ast.walk(n) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} | {
            n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))}
        self.body(tree.body, top, imports, bound, None, name)

    def imports(self, n, imports, mod):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    imports[a.asname] = a.name
                else:
                    imports[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                base = ".".join(mod.split(".")[:-n.level] + ([n.module] if n.module else [])) or self.package
            for a in n.names:
                imports[a.asname or a.name] = base + "." + a.name

    def body(self, stmts, fn, imports, bound, cls, prefix):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = Fn(prefix + "." + s.name, s, fn.path, cls, fn.mod)
                self.fns.append(g)
                if fn.node is not None and not isinstance(fn.node, (ast.Module, ast.ClassDef)):
                    fn.refs.append(("bare", s.name))
                for e in s.decorator_list + s.args.defaults + [d for d in s.args.kw_defaults if d]:
                    self.expr(e, fn, imports, bound, cls)
                loc = {a.arg for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs} | {
                    a.arg for a in (s.args.vararg, s.args.kwarg) if a}
                loc |= {t.id for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, (ast.Store, ast.Del))}
                loc |= {t.name for t in ast.walk(s) if isinstance(t, (ast.FunctionDef, ast.ClassDef)) and t is not s}
                self.body(s.body, g, {k: v for k, v in imports.items() if k not in {a.arg for a in s.args.args}}, bound | loc, cls, g.qual)
            elif isinstance(s, ast.ClassDef):
                self.classes.setdefault(s.name, []).append([b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "" for b in s.bases])
                for e in s.bases + s.decorator_list + [k.value for k in s.keywords]:
                    self.expr(e, fn, imports, bound, cls)
                self.body(s.body, fn, imports, bound, s.name, prefix + "." + s.name)
            elif isinstance(s, ast.If) and fn.qual.endswith(".<module>") and "__name__" in ast.dump(s.test):
                g = Fn(fn.mod + ".<program>", s, fn.path, None, fn.mod)
                g.mains = True
                self.fns.append(g)
                self.body(s.body, g, imports, bound, cls, prefix)
                self.body(s.orelse, fn, imports, bound, cls, prefix)
            else:
                for f, v in ast.iter_fields(s):
                    for x in (v if isinstance(v, list) else [v]):
                        if isinstance(x, ast.stmt):
                            self.body([x], fn, imports, bound, cls, prefix)
                        elif isinstance(x, ast.ExceptHandler):
                            if x.type:
                                self.expr(x.type, fn, imports, bound, cls)
                            self.body(x.body, fn, imports, bound, cls, prefix)
                        elif isinstance(x, ast.match_case) if hasattr(ast, "match_case") else False:
                            self.body(x.body, fn, imports, bound, cls, prefix)
                        elif isinstance(x, ast.AST):
                            self.expr(x, fn, imports, bound, cls)

    def dotted(self, e, imports, bound):
        if isinstance(e, ast.Name):
            if e.id in imports:
                return imports[e.id]
            if e.id == "__builtins__":
                return "builtins"
            return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value, imports, bound)
            return b and b + "." + e.attr
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) > 1:
            b = self.dotted(e.args[0], imports, bound)
            if b and isinstance(e.args[1], ast.Constant):
                return "%s.%s" % (b, e.args[1].value)
            return b and b + ".?"
        if isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
            if isinstance(e.func, ast.Name) and e.func.id == "__import__" or self.dotted(e.func, imports, bound) == "importlib.import_module":
                return e.args[0].value
        return None

    def expr(self, e, fn, imports, bound, cls):
        d = self.dotted(e, imports, bound)
        if d is not None:
            self.external(d, e, None, fn)
            return
        if isinstance(e, ast.Call):
            f = e.func
            d = self.dotted(f, imports, bound)
            if d is not None:
                self.external(d, f, e, fn)
            elif isinstance(f, ast.Name):
                self.name(f, e, fn, bound)
            elif isinstance(f, ast.Attribute):
                self.attribute(f, e, fn, imports, bound, cls)
            else:
                self.expr(f, fn, imports, bound, cls)
            for a in e.args + [k.value for k in e.keywords]:
                self.expr(a, fn, imports, bound, cls)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.name(e, None, fn, bound)
            return
        if isinstance(e, ast.Attribute):
            self.attribute(e, None, fn, imports, bound, cls)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, fn, imports, bound, cls)

    # ------------------------------------------------------------ sites
    def name(self, e, call, fn, bound):
        if e.id in BUILTINS and e.id not in bound:
            k = BUILTINS[e.id]
            if k == "open":
                k = mode(call)
            elif k == CODE and call and call.args and all(isinstance(a, ast.Constant) for a in call.args):
                return
            fn.sites.append((k, e.id, e.lineno))
        else:
            fn.refs.append(("bare", e.id))

    def attribute(self, e, call, fn, imports, bound, cls):
        v = e.value
        if isinstance(v, ast.Name) and v.id in ("self", "cls"):
            fn.refs.append((cls or "", e.attr))
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            fn.refs.append((cls or "", e.attr))
        elif isinstance(v, ast.Name) and v.id in self.classes:
            fn.refs.append((v.id, e.attr))
        else:
            fn.refs.append((None, e.attr))
        self.expr(v, fn, imports, bound, cls)
        if e.attr in METHODS:
            fn.sites.append((METHODS[e.attr], "." + e.attr, e.lineno))
        elif e.attr == "open" and call is not None:
            fn.sites.append((mode(call, 0), ".open", e.lineno))
        elif e.attr in ("__globals__", "__builtins__", "__code__", "__subclasses__"):
            fn.sites.append((UNKNOWN, "." + e.attr, e.lineno))

    def external(self, d, e, call, fn):
        if d == self.package or d.startswith(self.package + "."):
            last = d.split(".")
            for i, n in enumerate(last[1:]):
                fn.refs.append((last[i] if last[i] in self.classes else None if i else "bare", n))
            fn.refs.append(("bare", last[-1]))
            return
        fn.externals += 1
        best = kind_of(d)
        parts = d.split(".")
        if best == "":
            return
        if best == CODE and call is None and d == parts[0]:
            return
        if best == "open":
            best = mode(call)
        if best is None:
            if d == "logging.basicConfig" and call and any(k.arg == "filename" for k in call.keywords):
                best = WRITE
            elif d in ("json.dump", "csv.writer", "sys.stdout", "sys.stderr", "print") or any(".".join(parts[:i]) in PURE for i in range(len(parts), 0, -1)):
                if d.endswith(".?") and parts[0] in ("os", "socket", "builtins"):
                    best = UNKNOWN
                elif parts[0] == "os" and parts[1:2] not in ([], ["path"], ["environ"]):
                    best = UNKNOWN
                elif parts[0] == "builtins" and parts[-1] in BUILTINS:
                    best = BUILTINS[parts[-1]]
                    best = mode(call) if best == "open" else best
                else:
                    return
            else:
                best = UNKNOWN
        fn.sites.append((best, d, e.lineno))

    # ------------------------------------------------------------ who refers to a function
    def related(self, a, b):
        """one class derives from the other"""
        def up(c, seen):
            if c in seen:
                return seen
            seen.add(c)
            for bases in self.classes.get(c, []):
                for x in bases:
                    up(x, seen)
            return seen
        return a in up(b, set()) or b in up(a, set()) or bool(
            {x for x in self.classes if a in up(x, set()) and b in up(x, set())})

    def referrers(self, g):
        r = []
        for f in self.fns:
            if f is g:
                continue
            for how, n in f.refs:
                if n != g.name:
                    continue
                if how == "bare":
                    if g.cls is None:
                        r.append(f)
                        break
                elif how is None:
                    if n not in COMMON:
                        r.append(f)
                        break
                elif g.cls is not None and self.related(how, g.cls):
                    r.append(f)
                    break
        return r

    def closed(self, start, roots=()):
        """functions reached only from those given; roots are entered from outside too"""
        ok = {f for f in self.fns if start(f)}
        refs = {f: self.referrers(f) for f in self.fns}
        while True:
            more = {f for f in self.fns if f not in ok and f.name not in roots and refs[f] and all(x in ok for x in refs[f])}
            if not more:
                return ok
            ok |= more


def mode(call, at=1):
    """what an open call does"""
    if call is None:
        return UNKNOWN
    m = call.args[at] if len(call.args) > at else next((k.value for k in call.keywords if k.arg == "mode"), None)
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return UNKNOWN
    if m is None:
        return READ
    if isinstance(m, ast.IfExp) and all(isinstance(x, ast.Constant) for x in (m.body, m.orelse)):
        ms = [m.body.value, m.orelse.value]
    elif isinstance(m, ast.Constant):
        ms = [m.value]
    else:
        return UNKNOWN
    if all(isinstance(x, str) and set(x) <= set("rbtU") for x in ms):
        return READ
    if any(isinstance(x, str) and set(x) & set("wax+") for x in ms):
        return WRITE
    return READ if at == 0 else UNKNOWN
