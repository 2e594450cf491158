"""Transfer functions for the Python built-ins and the standard library that acltk uses."""
import ast as _ast
import builtins
import functools
import html
import importlib
import re
from xml.etree import ElementTree
import datetime as _dt
import ipaddress as _ipa
import re as _re
import string as _string

from .dd import *
from .core import *
from . import theory, peg, rx

DICT_METHODS = {"get", "items", "keys", "values", "setdefault", "update", "pop", "copy", "clear", "popitem",
                "__contains__", "__getitem__", "__setitem__", "__len__", "__iter__", "asjson"}
SENT = L(("ext", "analysis.missing"))
TERMTY.update({"ifnet": "net", "sumnet": "net", "colnet": "net", "part": "str", "idx": "str", "sub": "str",
               "repr": "str", "getserv": "int", "id": "int", "hash": "int", "decode": "str", "prefixlen": "int",
               "timedelta": "timedelta", "intlen": "int", "max": None, "xmltext": "str", "numaddrs": "int"})

OBJ_MRO = {
    "str": ("str", "object"), "int": ("int", "object"), "addr": ("_BaseAddress", "_IPAddressBase", "object"),
    "net": ("_BaseNetwork", "_IPAddressBase", "object"), "tuple": ("tuple", "object"), "datetime": ("datetime", "date", "object"),
    "time": ("time", "object"), "timedelta": ("timedelta", "object"), "float": ("float", "object"),
    "iface": ("_BaseAddress", "_IPAddressBase", "object"), "bool": ("bool", "int", "object"),
}


# ------------------------------------------------------------------ small helpers
def seq1(ip, st, node):
    return ip.seq_items(st, ip.iterate(node, st))


def const(node):
    return node.var == INF and node.leaf[0] == "c"


def split_all(ip, st, nodes, fn, kw=None):
    """case split on all gated nodes; fn(list of leaves, st)"""
    def go(i, acc, s):
        if i == len(nodes):
            return fn(acc, s)
        return ip.split(nodes[i], s, lambda l, s2: go(i + 1, acc + [l], s2))
    return go(0, [], st)


def raise_type(ip, st, msg=""):
    ip.raise_(st, ip.exc("TypeError", C(msg)))
    raise Dead()


def fails(ip, st, what, exc, *terms):
    """raise exc when the (unknown) argument makes the call fail"""
    a = atom(("fails", what) + terms)
    ip.raise_(st, ip.exc(exc), a)


# ------------------------------------------------------------------ isinstance
def class_names(ip, st, cls):
    """flatten the class argument into [name]"""
    if cls.var != INF:
        raise Undecided("gated class argument")
    l = cls.leaf
    if l[0] == "class":
        return [l[1].name]
    if l[0] == "ext":
        return [l[1].split(".")[-1]]
    if l[0] == "t" and l[1] == "tuple":
        r = []
        for x in l[2:]:
            r.extend(class_names(ip, st, x))
        return r
    if l[0] == "r":
        r = []
        for x in seq1(ip, st, cls):
            r.extend(class_names(ip, st, x[1]))
        return r
    if l == NONE.leaf:
        return ["NoneType"]
    if l[0] == "t" and l[1] == "type":
        # class of an unknown object
        raise Undecided("isinstance with unknown class")
    raise Undecided("class argument %s" % show_leaf(l))


def isinst1(ip, st, l, name):
    if name == "object":
        return TRUE
    if l[0] == "top":
        return atom(("top", "isinst", name) + l[1:])
    if l[0] == "c":
        return C(name in [k.__name__ for k in l[1].__mro__])
    if l[0] == "r":
        o = ip.obj(st, l)
        if o.kind == "inst":
            if isinstance(o.cls, ClassInfo):
                return C(name in o.cls.mro_names())
            return C(name in ext_mro(o.cls))
        if o.kind == "ast":
            return C(name in ("AST", "dict", "Mapping", "MutableMapping"))
        if o.kind == "xml":
            return C(name == "Element")
        names = {"list": ("list", "Sequence", "Iterable"), "set": ("set", "frozenset"), "dict": ("dict", "Mapping", "defaultdict")}
        if o.kind == "set":
            return C(name == ("frozenset" if (o.meta or {}).get("frozen") else "set"))
        return C(name in names.get(o.kind, ()))
    if l[0] in ("class",):
        return C(name == "type")
    if l[0] in ("func", "bound", "bm", "partial", "pyfn"):
        return FALSE
    if l[0] == "ext":
        return C(name == "type" and l[1].split(".")[-1][:1].isupper())
    if l[0] == "t":
        if l[1] == "exc":
            return C(name in ip.exc_mro(l[2]))
        c = tag(l, "cls")
        if isinstance(c, ClassInfo):
            return C(name in c.mro_names())
        if isinstance(c, tuple):
            yes = [k for k in c if name in k.mro_names()]
            if len(yes) == len(c):
                return TRUE
            if not yes:
                return FALSE
            return atom(("isinst", L(l), name))
        ty = tyof(l)
        if ty in ("addr", "net", "iface"):
            fam = {"IPv4Address": ("addr", 4), "IPv6Address": ("addr", 6), "IPv4Network": ("net", 4),
                   "IPv6Network": ("net", 6), "IPv4Interface": ("iface", 4), "IPv6Interface": ("iface", 6)}.get(name)
            if fam:
                if fam[0] != ty and not (fam[0] == "addr" and ty == "iface"):
                    return FALSE
                v = theory.v4(L(l))
                return v if fam[1] == 4 else neg(v)
        if ty is not None and ty in OBJ_MRO:
            return C(name in OBJ_MRO[ty])
        if ty is not None:
            return FALSE
        return atom(("isinst", L(l), name))
    return FALSE


def isinstance_(ip, st, v, cls):
    names = class_names(ip, st, cls)

    def f(l):
        r = FALSE
        for n in names:
            r = disj(r, isinst1(ip, st, l, n))
        return r
    return restrict(mapleaf(restrict(v, st.pc), f), st.pc)


# ------------------------------------------------------------------ printing
def show(ip, st, l, names=("__str__", "__repr__"), seen=()):
    """run what printing l runs, for the exceptions; what is printed is not kept"""
    if l[0] == "r":
        if l[1] in seen:
            return
        seen += (l[1],)
        o = ip.obj(st, l)
        if o.kind == "inst":
            for n in names:
                if ip.has_method(st, l, (n,)):
                    def text(v, s):
                        if tyof(v) not in ("str", None):
                            raise_type(ip, s, "%s returned non-string" % n)
                        return NONE
                    ip.split(ip.call_method(L(l), n, [], {}, st), st, text)
                    return
        elif o.kind in ("list", "set"):
            for g, v in o.data:
                show_if(ip, st, g, v, seen)
        elif o.kind == "dict" and not (o.meta and o.meta.get("opaque")):
            for k, g, v in o.data:
                show_if(ip, st, g, T("tuple", k, v), seen)
    elif l[0] == "t" and l[1] in ("tuple", "ntuple"):
        for v in l[2 if l[1] == "tuple" else 4:]:
            show_if(ip, st, TRUE, v, seen)


def show_if(ip, st, g, v, seen):
    def one(l, s):
        show(ip, s, l, ("__repr__",), seen)
        return NONE
    ip.branch(g, st, lambda s: ip.split(v, s, one), lambda s: NONE)


# ------------------------------------------------------------------ strings
def mkfmt(ip, st, parts):
    def build(ls, s):
        ls = [exc_text(l) for l in ls]
        if ip.deep:
            for l in ls:
                show(ip, s, l)
        out = []
        for l in ls:
            if l[0] == "c":
                if l[2] == "":
                    continue
                t = str(l[2])
                if out and out[-1][0] == "c":
                    out[-1] = ("c", str, out[-1][2] + t)
                else:
                    out.append(("c", str, t))
            elif l[0] == "t" and l[1] == "fmt":
                for p in l[2:]:
                    pl = p.leaf
                    if pl[0] == "c" and out and out[-1][0] == "c":
                        out[-1] = ("c", str, out[-1][2] + pl[2])
                    else:
                        out.append(pl)
            elif l[0] == "r":
                if lazy(ip.obj(s, l)):
                    raise Undecided("text of an iterator")
                out.append(T("repr", L(l)).leaf)
            else:
                out.append(l)
        if not out:
            return C("")
        if len(out) == 1 and (out[0][0] == "c" or tyof(out[0]) == "str"):
            return L(out[0])
        if any(l[0] == "top" for l in out):
            return ip.top("format")
        return T("fmt", *[L(l) for l in out])
    return split_all(ip, st, list(parts), build)


def exc_text(l):
    """what a built-in exception says"""
    if l[0] == "t" and l[1] == "exc" and l[2] != "KeyError" and isinstance(getattr(builtins, l[2], None), type):
        if len(l) == 3:
            return C("").leaf
        if len(l) == 4 and isinstance(l[3], Node) and l[3].var == INF and (const(l[3]) or tyof(l[3].leaf) == "str"):
            return l[3].leaf
    return l


def fmt_spec(ip, st, x, spec):
    if const(spec) and spec.leaf[2] == "":
        return x

    def f(l, s):
        if l[0] == "c" and const(spec):
            try:
                return C(format(l[2], spec.leaf[2]))
            except (TypeError, ValueError) as e:
                ip.raise_(s, ip.exc(type(e).__name__))
                raise Dead()
        if l[0] == "r" and not (ip.obj(s, l).kind == "inst" and ip.has_method(s, l, ("__format__",))):
            raise_type(ip, s, "format")
        if tyof(l) == "str" and const(spec) and spec.leaf[2][-1:] in "bcdeEfFgGnoxX%":
            ip.raise_(s, ip.exc("ValueError"))
            raise Dead()
        return T("strm", C("format"), L(l), spec)
    return ip.split(x, st, f)


def repr_(ip, st, l):
    if l[0] == "c":
        return C(repr(l[2]))
    if l[0] == "r" and lazy(ip.obj(st, l)):
        raise Undecided("text of an iterator")
    if ip.deep:
        show(ip, st, l, ("__repr__",))
    return T("repr", L(l))


def percent(ip, st, fmt, lb):
    parts = fmt.split("%s")
    if "%" in "".join(parts):
        return None
    if lb[0] == "t" and lb[1] == "tuple":
        vals = list(lb[2:])
    else:
        vals = [L(lb)]
    if len(vals) != len(parts) - 1:
        raise_type(ip, st, "format arguments")
    seq = []
    for i, p in enumerate(parts):
        seq.append(C(p))
        if i < len(vals):
            seq.append(vals[i])
    return mkfmt(ip, st, seq)


def text_parts(l):
    """[(constant text, None) | (symbol, (characters it may hold, holds at least one))], None when a class is not known"""
    out = []
    for p in (l[2:] if l[0] == "t" and l[1] == "fmt" else (L(l),)):
        if const(p):
            if not isinstance(p.leaf[2], str):
                return None
            out.append((p.leaf[2], None))
            continue
        if p.var != INF or p.leaf[0] != "t" or p.leaf[1] != "sym" or not tag(p.leaf, "shapes"):
            return None
        cs, least = frozenset(), True
        for sh in tag(p.leaf, "shapes"):
            items = rx.shape(sh)
            least = least and any(lo for _, lo, _ in items)
            for c, lo, hi in items:
                cs = cs | c
        out.append((p, (cs, least)))
    return out


SPACE = " \t\n\r\v\f"


def private(l, bad):
    """a text as a string where a symbol is one private character; None when a symbol may hold one of bad or be empty"""
    parts = text_parts(l)
    if parts is None or any(k and (k[0] & frozenset(bad) or not k[1]) for _, k in parts):
        return None
    s, syms = "", {}
    for p, k in parts:
        if k is None:
            s += p
        else:
            c = chr(0xe000 + len(syms))
            syms[c] = p
            s += c
    return s, syms


def public(x, syms):
    seq = []
    for c in x:
        if c in syms:
            seq.append(syms[c])
        elif seq and seq[-1].leaf[0] == "c":
            seq[-1] = C(seq[-1].leaf[2] + c)
        else:
            seq.append(C(c))
    return C("") if not seq else seq[0] if len(seq) == 1 else T("fmt", *seq)


def text_split(l, sep, limit=-1, right=False):
    """pieces of a text of constants and word classes without the separator's characters"""
    if sep == "":
        return None
    r = private(l, SPACE if sep is None else sep)
    if r is None:
        return None
    s, syms = r
    return [public(x, syms) for x in (s.rsplit if right else s.split)(sep, limit)]


LINEBREAKS = "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029"


def text_decoded(l, enc, errors, bom):
    """what the bytes of a text (UTF-8) are in an encoding; None: not known"""
    r = private(l, "")
    if r is None or any(ord(c) > 127 for p, k in text_parts(l) if k for c in k[0]):
        return None
    s, syms = r
    out, first = "", True
    import codecs
    dec = codecs.getincrementaldecoder(enc)(errors)
    chunk = b"\xef\xbb\xbf" if bom else b""
    for c in s:
        if c in syms:
            out += dec.decode(chunk) + dec.decode(b"a")[:-1] + c
            chunk = b""
        else:
            chunk += c.encode("utf-8")
    return public(out + dec.decode(chunk, True), syms)


def first_bytes(l, n):
    """the first n bytes of a known file; None: not known"""
    text, bom = FILES[l[2].leaf[2]]
    b = b"\xef\xbb\xbf" if bom and len(l) == 3 else b""
    r = private(text.leaf, "")
    if r is None:
        return None
    for c in r[0]:
        if len(b) >= n or c in r[1]:
            break
        b += c.encode("utf-8")
    return b[:n] if len(b) >= n else None


def file_bytes(l):
    return l[1] == "bytes" and l[2].leaf[0] == "t" and l[2].leaf[1] == "file" and l[2].leaf[2] in FILES


def bytes_slice(ip, l, a, b, step):
    """part of a known file"""
    bom = FILES[l[2].leaf[2]][1] and len(l) == 3
    if step in (None, 1):
        if a in (None, 0) and isinstance(b, int) and b >= 0:
            r = first_bytes(l, b)
            if r is not None:
                return C(r)
        if b is None and a == 3 and bom:
            return T("bytes", l[2], C("no mark"))
        if b is None and a in (None, 0):
            return L(l)
    return ip.top("part of a file")


def decode(ip, st, b, enc, errors):
    """bytes of a known file as text"""
    path = b.leaf[2].leaf[2]
    if not (const(enc) and const(errors)):
        return None
    e = str(enc.leaf[2]).lower().replace("_", "-")
    if e not in ("utf-8", "utf8", "utf-8-sig", "ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1", "cp1252"):
        return None
    text, bom = FILES[path]
    bom = bom and len(b.leaf) == 3
    try:
        return text_decoded(text.leaf, e, errors.leaf[2], bom)
    except UnicodeError:
        ip.raise_(st, ip.exc("UnicodeDecodeError"))
        raise Dead()


def read_file(ip, st, f):
    """a known file is read"""
    path, mode = f.leaf[2], f.leaf[3] if len(f.leaf) > 3 else C("r")
    if not const(mode):
        return None
    if "b" in mode.leaf[2]:
        return T("bytes", f)
    enc, newline = (f.leaf[4], f.leaf[5]) if len(f.leaf) > 5 else (C("utf-8"), NONE)
    r = decode(ip, st, T("bytes", f), enc, C("strict"))
    if r is not None and newline.leaf[2] is None:
        q = private(r.leaf, "\r\n")
        r = None if q is None else public(q[0].replace("\r\n", "\n").replace("\r", "\n"), q[1])
    return r


def text_strip(l, name, chars):
    parts = text_parts(l)
    if parts is None:
        return None
    bad = SPACE if chars is None else chars
    if any(k and (k[0] & frozenset(bad) or not k[1]) for _, k in parts):
        return None
    parts = [list(p) for p in parts]
    if name in ("strip", "lstrip"):
        while parts and parts[0][1] is None:
            parts[0][0] = parts[0][0].lstrip(bad)
            if parts[0][0]:
                break
            parts.pop(0)
    if name in ("strip", "rstrip"):
        while parts and parts[-1][1] is None:
            parts[-1][0] = parts[-1][0].rstrip(bad)
            if parts[-1][0]:
                break
            parts.pop()
    seq = [C(p) if k is None else p for p, k in parts]
    return C("") if not seq else seq[0] if len(seq) == 1 else T("fmt", *seq)


def text_has(l, needle):
    """True / False / None"""
    parts = text_parts(l)
    if parts is None:
        return None
    if any(k is None and needle in p for p, k in parts):
        return True
    if not any(k and k[0] & frozenset(needle) for _, k in parts):
        # within constants only, unless a symbol may be empty
        return False if len(needle) == 1 or all(k is None or k[1] for _, k in parts) else None
    if len(needle) == 1:
        for p, k in parts:
            if k and all(any(lo and c <= frozenset(needle) for c, lo, _ in rx.shape(sh)) for sh in tag(p.leaf, "shapes")):
                return True
    return None


def text_begins(l, w, end=False):
    """True / False / None"""
    parts = text_parts(l)
    if parts is None:
        return None
    alts = [[]]
    for p, k in parts:
        opts = [[(frozenset(c), 1, 1) for c in p]] if k is None else [list(rx.items_of(p.leaf)[0])]
        alts = [a + o for a in alts for o in opts]
        if len(alts) > 64:
            return None
    res = set()
    for items in alts:
        if end:
            items = items[::-1]
        r, want = True, list(w[::-1] if end else w)
        for c, lo, hi in items:
            for _ in range(lo):
                if not want:
                    break
                x = want.pop(0)
                if x not in c:
                    r = False
                    break
                if len(c) > 1:
                    r = None
            if r is False or not want:
                break
            if hi != lo:
                r, want = None, []
                break
        if r is not False and want:
            r = False
        res.add(r)
    return res.pop() if len(res) == 1 else None


def str_contains(ip, st, hay, needle):
    if needle[0] == "c":
        if needle[2] == "":
            return TRUE
        r = text_has(hay, needle[2])
        if r is not None:
            return TRUE if r else FALSE
        if hay[1] == "part" and needle[2] == hay[3].leaf[2]:
            return FALSE
        if hay[1] == "fmt":
            for p in hay[2:]:
                if const(p) and needle[2] in p.leaf[2]:
                    return TRUE
        if tag(hay, "word") and not theory.wordlike(needle[2]):
            return FALSE
        if tag(hay, "numeric") and not needle[2].isdigit():
            return FALSE
    return atom(("instr", L(needle), L(hay)))


def str_format(ip, st, fmt, args, kwargs):
    parts = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        if lit:
            parts.append(C(lit))
        if field is None:
            continue
        first, rest = _string._string.formatter_field_name_split(field) if hasattr(_string, "_string") else (field, [])
        if first == "":
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                ip.raise_(st, ip.exc("IndexError"))
                raise Dead()
            v = args[first]
        else:
            if first not in kwargs:
                ip.raise_(st, ip.exc("KeyError"))
                raise Dead()
            v = kwargs[first]
        for isattr, n in rest:
            v = ip.getattr(v, n, st) if isattr else ip.getitem(v, C(n), st)
        if conv in ("r", "a"):
            v = ip.split(v, st, lambda l, s: repr_(ip, s, l))
        if spec:
            v = fmt_spec(ip, st, v, C(spec))
        parts.append(v)
    return mkfmt(ip, st, parts)


PURE_STR = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "replace", "swapcase",
            "zfill", "expandtabs", "translate", "removeprefix", "removesuffix", "ljust", "rjust", "center", "encode"}
PRED_STR = {"isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "isspace", "isupper", "islower", "isidentifier"}


def str_method(ip, st, l, name, args, kwargs):
    if kwargs and name != "format":
        args = args + [v for _, v in sorted(kwargs.items())]
    if name == "format":
        if l[0] != "c":
            return ip.top("format")
        return str_format(ip, st, l[2], args, kwargs)
    if name == "join":
        def j(vals, s):
            if not all(x.var != INF or tyof(x.leaf) in ("str", None) for x in vals):
                raise_type(ip, s, "join")
            for x in vals:
                if x.var != INF:
                    ip.split(x, s, lambda lx, sx: NONE if tyof(lx) in ("str", None) and lx[0] != "r" else raise_type(ip, sx, "join"))
            if any(x.var == INF and x.leaf[0] == "r" for x in vals):
                raise_type(ip, s, "join")
            seq = []
            for i, v in enumerate(vals):
                if i:
                    seq.append(L(l))
                seq.append(v)
            return mkfmt(ip, s, seq)
        return ip.with_exact(ip.iterate(args[0], st), st, j)

    def f(ls, s):
        if l[0] == "c" and all(x[0] == "c" for x in ls):
            try:
                r = getattr(l[2], name)(*[x[2] for x in ls])
            except Exception as e:
                ip.raise_(s, ip.exc(type(e).__name__))
                raise Dead()
            if isinstance(r, list):
                return ip.new_list(s, [C(x) for x in r])
            if isinstance(r, tuple):
                return T("tuple", *[C(x) for x in r])
            return C(r)
        if name in ("startswith", "endswith"):
            base = l
            while base[0] == "t" and base[1] == "sub":
                base = base[2].leaf
            pats = []
            a = ls[0]
            if a[0] == "t" and a[1] == "tuple":
                pats = [x.leaf for x in a[2:]]
            elif a[0] == "c" and isinstance(a[2], tuple):
                pats = [("c", str, x) for x in a[2]]
            else:
                pats = [a]
            r = FALSE
            for p in pats:
                if p[0] != "c":
                    r = disj(r, atom((name, L(base), L(p))))
                elif p[2] == "":
                    r = TRUE
                elif base is l and text_begins(l, p[2], name == "endswith") is not None:
                    if text_begins(l, p[2], name == "endswith"):
                        r = TRUE
                else:
                    if tag(base, "values") is not None:
                        for v in tag(base, "values"):
                            if getattr(v, name)(p[2]):
                                r = disj(r, theory.eq_leaf(ip, s, base, C(v).leaf))
                    else:
                        r = disj(r, atom((name, L(base), p[2])))
            return r
        if name in ("split", "rsplit"):
            sep = C(None) if not ls else L(ls[0])
            if len(ls) > 1 and ls[1][0] == "c" and isinstance(ls[1][2], int) and ls[1][2] == 0:
                return ip.new_list(s, [L(l)])
            if const(sep) and (len(ls) < 2 or ls[1][0] == "c"):
                r = text_split(l, sep.leaf[2], ls[1][2] if len(ls) > 1 else -1, name == "rsplit")
                if r is not None:
                    return ip.new_list(s, r)
            has = str_contains(ip, s, l, sep.leaf) if const(sep) and sep.leaf[2] is not None else atom(("instr", C(" "), L(l)))
            p0 = restrict(ite(has, T("part", L(l), sep, C(0)), L(l)), s.pc)
            return ip.new_seq(s, [(TRUE, p0), (has, T("part", L(l), sep, C(1)))])
        if name == "splitlines":
            q = private(l, LINEBREAKS)
            if q is not None and all(x[0] == "c" for x in ls):
                return ip.new_list(s, [public(x, q[1]) for x in q[0].splitlines(*[x[2] for x in ls])])
            has = atom(("instr", C("\n"), L(l)))
            return ip.new_seq(s, [(TRUE, ite(has, T("part", L(l), C("\n"), C(0)), L(l))), (has, T("part", L(l), C("\n"), C(1)))])
        if name in ("partition", "rpartition"):
            sep = L(ls[0])
            r = text_split(l, ls[0][2], 1, name == "rpartition") if ls[0][0] == "c" and ls[0][2] else None
            if r is not None and len(r) in (1, 2):
                if len(r) == 2:
                    return T("tuple", r[0], sep, r[1])
                return T("tuple", L(l), C(""), C("")) if name == "partition" else T("tuple", C(""), C(""), L(l))
            has = str_contains(ip, s, l, ls[0])
            h, t = T("part", L(l), sep, C(0)), T("part", L(l), sep, C(1))
            if name == "partition":
                return T("tuple", restrict(ite(has, h, L(l)), s.pc), restrict(ite(has, sep, C("")), s.pc),
                         restrict(ite(has, t, C("")), s.pc))
            return T("tuple", restrict(ite(has, h, C("")), s.pc), restrict(ite(has, sep, C("")), s.pc),
                     restrict(ite(has, t, L(l)), s.pc))
        if name == "count" and len(ls) == 1 and ls[0][0] == "c":
            r = text_split(l, ls[0][2], -1, False) if ls[0][2] else None
            if r is not None:
                return C(len(r) - 1)
            return ite(str_contains(ip, s, l, ls[0]), C(1), C(0))
        if name in ("find", "index") and ls and ls[0][0] == "c":
            has = str_contains(ip, s, l, ls[0])
            if name == "index":
                ip.raise_(s, ip.exc("ValueError"), neg(has))
                return T("arith", "find", L(l), L(ls[0]))
            return ite(has, T("arith", "find", L(l), L(ls[0])), C(-1))
        if name in PRED_STR:
            if tag(l, "numeric") and name in ("isdigit", "isnumeric", "isdecimal", "isalnum"):
                return TRUE
            if name in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum"):
                parts = text_parts(l)
                if parts is not None:
                    cs = frozenset(chr(i) for i in range(128) if getattr(chr(i), name)())
                    if beyond(parts, cs):
                        return FALSE
                    if all(frozenset(p) <= cs if k is None else k[0] <= cs for p, k in parts) and any(k is None or k[1] for _, k in parts):
                        return TRUE
            if name in ("isdigit", "isnumeric", "isdecimal"):
                return neg(atom(("fails", "int", L(l))))
            return atom(("strp", name, L(l)))
        if name in PURE_STR:
            if name in ("strip", "lstrip", "rstrip") and not ls and tag(l, "word"):
                return L(l)
            if name in ("strip", "lstrip", "rstrip") and (not ls or ls[0][0] == "c"):
                r = text_strip(l, name, ls[0][2] if ls else None)
                if r is not None:
                    return r
            if name in ("replace", "removeprefix", "removesuffix") and ls and all(x[0] == "c" for x in ls) and isinstance(ls[0][2], str):
                q = private(l, ls[0][2]) if ls[0][2] else None
                if q is not None:
                    return public(getattr(q[0], name)(*[x[2] for x in ls]), q[1])
            if tag(l, "numeric") and name in ("lower", "upper", "strip", "casefold"):
                return L(l)
            if name in ("strip", "lower", "upper", "casefold") and l[0] == "t" and l[1] == "strm" and l[2] is C(name) and len(l) == 4 and not ls:
                return L(l)
            if tag(l, "values") is not None and all(x[0] == "c" for x in ls):
                r = None
                for v in tag(l, "values"):
                    w = C(getattr(v, name)(*[x[2] for x in ls]))
                    r = w if r is None else ite(theory.eq_leaf(ip, s, l, C(v).leaf), w, r)
                if r is not None:
                    return r
            return T("strm", C(name), L(l), *[L(x) for x in ls])
        if name in ("__str__", "__repr__"):
            return L(l)
        if name == "__eq__":
            return ip.eq(L(l), L(ls[0]), s)
        if name == "__contains__":
            return ip.contains(L(l), L(ls[0]), s)
        if name in ("__len__",):
            return T("len", L(l))
        if not hasattr(str, name):
            ip.raise_(s, ip.exc("AttributeError", name))
            raise Dead()
        return ip.top("str.%s" % name)
    return split_all(ip, st, args, f)


# ------------------------------------------------------------------ term attributes / items
def term_attr(ip, st, l, name):
    ty = tyof(l)
    x = L(l)
    if ty == "addr":
        if name == "version":
            return T("version", x)
        if name == "max_prefixlen":
            return ite(theory.v4(x), C(32), C(128))
        if name == "compressed":
            return mkfmt(ip, st, [x])
        if name.startswith("is_"):
            return atom(("addrp", name, x))
    if ty == "net":
        if name == "network_address":
            return T("netaddr", x)
        if name == "broadcast_address":
            return T("bcast", x)
        if name == "netmask":
            return T("netmask", x)
        if name == "hostmask":
            return T("hostmask", x)
        if name == "version":
            return T("version", x)
        if name == "prefixlen":
            return T("prefixlen", x)
        if name == "max_prefixlen":
            return ite(theory.v4(x), C(32), C(128))
        if name == "num_addresses":
            return T("numaddrs", x)
        if name == "with_prefixlen":
            return mkfmt(ip, st, [T("netaddr", x), C("/"), T("prefixlen", x)])
    if ty == "iface":
        if name == "network":
            if l[1] == "ip_iface" and len(l) == 4:
                return T("net", l[2], l[3])
            return T("ifnet", x)
        if name == "ip":
            return T("iface_ip", x)
        if name == "version":
            return T("version", x)
        if name == "netmask":
            return T("netmask", term_attr(ip, st, l, "network"))
    if ty == "timedelta" and name == "days":
        return T("days", *l[2:])
    if l[1] == "exc":
        if name == "args":
            return T("tuple", *l[3:])
        return ip.top("exception attribute")
    if l[1] == "ntuple":
        fields = [f.leaf[2] for f in l[3].leaf[2:]]
        if name in fields:
            return l[4 + fields.index(name)]
        if name == "_asdict":
            return None
    if l[1] == "sym" and ty is None and not tag(l, "cls"):
        attrs = tag(l, "attrs")
        if attrs and name in attrs:
            return attrs[name]
        if name.startswith("__"):
            return None
        return sym("%s.%s" % (l[2], name))
    if l[1] == "sym" and isinstance(tag(l, "cls"), (ClassInfo, tuple)):
        c = tag(l, "cls")
        if isinstance(c, ClassInfo) and c.find(name)[0]:
            return None
        attrs = tag(l, "attrs")
        if attrs and name in attrs:
            return attrs[name]
        if isinstance(c, tuple) or not name.startswith("__"):
            return sym("%s.%s" % (l[2], name))
    if l[1] == "type" and name in ("__name__", "__qualname__"):
        return T("typename", l[2])
    return None


def term_getitem(ip, st, l, i):
    ty = tyof(l)
    x = L(l)
    if ty == "str":
        if i[0] == "c" and isinstance(i[2], int):
            ip.raise_(st, ip.exc("IndexError"), neg(ip.truth1(l, st)))
            sh = rx.items_of(l) if i[2] in (0, -1) else None
            if sh is not None and sh[0] and sh[0][i[2]][1] and len(sh[0][i[2]][0]) == 1:
                return C(next(iter(sh[0][i[2]][0])))
            return T("idx", x, i[2])
        if i[0] == "t" and i[1] == "slice":
            b = [None if p is NONE else p.leaf[2] if const(p) else p for p in i[2:]]
            if b == [None, None, None]:
                return x
            if l[1] == "sub" and b[2] is None and l[5] is NONE and all(isinstance(q, (int, type(None))) for q in b[:2]):
                lo, hi = l[3].leaf[2], l[4].leaf[2]
                if lo is None and b[1] is None and hi is not None and hi < 0 and b[0] is not None and b[0] >= 0:
                    return T("sub", l[2], C(b[0]), C(hi), NONE)
                if hi is None and b[0] is None and lo is not None and lo >= 0 and b[1] is not None and b[1] < 0:
                    return T("sub", l[2], C(lo), C(b[1]), NONE)
                if hi is None and b[0] is not None and b[0] >= 0 and lo is not None and lo >= 0 and b[1] is None:
                    return T("sub", l[2], C(lo + b[0]), NONE, NONE)
            return T("sub", x, *i[2:])
        return ip.top("string index")
    if ty == "tuple":
        return ip.top("tuple index")
    if ty in ("addr", "int", "datetime", "time", "iface"):
        raise_type(ip, st)
    if ty == "net":
        if i[0] == "c" and i[2] in (0, -1) and type(i[2]) is int:
            return T("netaddr" if i[2] == 0 else "bcast", x)
        return ip.top("network index")
    if file_bytes(l) and i[0] == "t" and i[1] == "slice" and all(const(p) for p in i[2:]):
        return bytes_slice(ip, l, *[p.leaf[2] for p in i[2:]])
    if l[1] == "sym" and ty is None and i[0] == "c":
        return sym("%s[%r]" % (l[2], i[2]))
    return ip.top("subscript")


# ------------------------------------------------------------------ containers
def as_set(ip, st, node):
    return seq1(ip, st, node)


def set_combine(ip, st, how, a, b):
    """a, b item lists -> item list"""
    if how == "or":
        out = []
        idx = {}
        for g, v in list(a) + list(b):
            if v in idx:
                k = idx[v]
                out[k] = (disj(out[k][0], g), v)
            else:
                idx[v] = len(out)
                out.append((g, v))
        return out
    if how == "and":
        return [(conj(g, ip.contains_seq(b, v, st, True)), v) for g, v in a]
    if how == "sub":
        return [(conj(g, neg(ip.contains_seq(b, v, st, True))), v) for g, v in a]
    if how == "xor":
        return [(conj(g, neg(ip.contains_seq(b, v, st, True))), v) for g, v in a] + \
               [(conj(g, neg(ip.contains_seq(a, v, st, True))), v) for g, v in b]


def leafwise(items):
    """one item per leaf, so that membership guards are exact"""
    out = []
    for g, v in items:
        for gg, l in leaves(v):
            out.append((conj(g, gg), L(l)))
    return out


def mkset(ip, st, items, frozen=False):
    out = []
    idx = {}
    for g, v in leafwise(items):
        g = restrict(g, st.pc)
        if g is FALSE:
            continue
        if v in idx:
            k = idx[v]
            out[k] = (disj(out[k][0], g), v)
        else:
            idx[v] = len(out)
            out.append((g, v))
    for g, v in out:
        if v.leaf[0] == "r" and ip.obj(st, v.leaf).kind in ("list", "dict", "set", "ast") and \
                not (ip.obj(st, v.leaf).meta or {}).get("frozen"):
            ip.raise_(st, ip.exc("TypeError", C("unhashable")), g)
    return ip.alloc(st, "set", tuple(out), meta={"frozen": True} if frozen else None)


def iskeys(o):
    return o.kind == "list" and o.meta and o.meta.get("view")


def isset(ip, st, l):
    if l[0] == "c":
        return isinstance(l[2], (set, frozenset))
    if l[0] == "r":
        o = ip.obj(st, l)
        return o.kind == "set" or bool(iskeys(o))
    return False


def container_op(ip, st, op, la, lb):
    how = {_ast.BitOr: "or", _ast.BitAnd: "and", _ast.Sub: "sub", _ast.BitXor: "xor"}.get(type(op))
    oa = ip.obj(st, la) if la[0] == "r" else None
    ob = ip.obj(st, lb) if lb[0] == "r" else None
    if how and (isset(ip, st, la) or isset(ip, st, lb)):
        view = (oa is not None and iskeys(oa)) or (ob is not None and iskeys(ob))
        if not view and not (isset(ip, st, la) and isset(ip, st, lb)):
            if lb[0] == "t" and lb[1] == "sym" and tyof(lb) is None or lb[0] == "top":
                return ip.top("set operand")
            raise_type(ip, st, "set operand")
        a, b = seq1(ip, st, L(la)), seq1(ip, st, L(lb))
        return mkset(ip, st, set_combine(ip, st, how, leafwise(a), leafwise(b)))
    if isinstance(op, _ast.Add) and oa is not None and oa.kind == "list":
        if ob is not None and ob.kind == "list":
            return ip.new_seq(st, tuple(oa.data) + tuple(ob.data))
        raise_type(ip, st, "list +")
    if isinstance(op, _ast.Mult) and oa is not None and oa.kind == "list" and lb[0] == "c":
        return ip.new_seq(st, tuple(oa.data) * lb[2])
    if how == "or" and oa is not None and ob is not None and oa.kind in ("dict", "ast") and ob.kind in ("dict", "ast"):
        r = ip.alloc(st, "dict", oa.data)
        method(ip, st, r, "update", [L(lb)], {})
        return r
    raise_type(ip, st, "container operand")


def method(ip, st, recv, name, args, kwargs):
    return ip.split(recv, st, lambda l, s: method1(ip, s, l, name, args, kwargs))


def method1(ip, st, l, name, args, kwargs):
    if l[0] == "r":
        o = ip.obj(st, l)
        if o.kind == "list":
            return list_method(ip, st, l, o, name, args, kwargs)
        if o.kind == "set":
            return set_method(ip, st, l, o, name, args, kwargs)
        if o.kind in ("dict", "ast"):
            return dict_method(ip, st, l, o, name, args, kwargs)
        if o.kind == "xml":
            return xml_method(ip, st, l, o, name, args, kwargs)
        if o.kind == "inst" and isinstance(o.cls, ClassInfo) and o.cls.ordering and name in ("__le__", "__gt__", "__ge__"):
            lt = ip.truth(ip.call_method(L(l), "__lt__", args, {}, st), st)
            eq = ip.eq(L(l), args[0], st)
            return {"__le__": disj(lt, eq), "__gt__": conj(neg(lt), neg(eq)), "__ge__": neg(lt)}[name]
        ov = ip.extover.get("method:" + name)
        if ov:
            return ov(ip, st, l, args, kwargs)
        if o.kind == "inst" and peg.is_parser(o.cls):
            return peg.parser_method(ip, st, l, name, args, kwargs)
        if o.kind == "inst" and o.cls == "tatsu.infos.ParserConfig":
            return peg.config_method(ip, st, l, name, args, kwargs)
        if name in ("__init__", "__setattr__"):
            return NONE
        return ip.top("method %s" % name)
    if l[0] == "c":
        v = l[2]
        if isinstance(v, str):
            return str_method(ip, st, l, name, args, kwargs)
        if isinstance(v, tuple):
            if name in ("index", "count", "__contains__", "__iter__"):
                return method1(ip, st, ip.new_list(st, [C(x) for x in v]).leaf, name, args, kwargs)
        if isinstance(v, frozenset):
            return method1(ip, st, ip.new_set(st, [(TRUE, C(x)) for x in v]).leaf, name, args, kwargs)
        if v is None:
            if name in ("__eq__", "__ne__") and len(args) == 1:
                e = ip.is_(args[0], NONE, st)
                return ite(e, C(name == "__eq__"), L(("ext", "builtins.NotImplemented")))
            if hasattr(None, name):
                return ip.top("None.%s" % name)
            ip.raise_(st, ip.exc("AttributeError"))
            raise Dead()
        if name in ("__and__", "__or__", "__xor__") and isinstance(v, (int, bool)):
            return ip.binop({"__and__": _ast.BitAnd(), "__or__": _ast.BitOr(), "__xor__": _ast.BitXor()}[name], L(l), args[0], st)

        def f(ls, s):
            if all(x[0] == "c" for x in ls):
                try:
                    return C(getattr(v, name)(*[x[2] for x in ls]))
                except Exception as e:
                    ip.raise_(s, ip.exc(type(e).__name__))
                    raise Dead()
            return ip.top("constant method")
        return split_all(ip, st, args, f)
    if l[0] == "t":
        return term_method(ip, st, l, name, args, kwargs)
    return ip.top("method %s" % name)


def term_method(ip, st, l, name, args, kwargs):
    ty = tyof(l)
    x = L(l)
    if ty == "str":
        return str_method(ip, st, l, name, args, kwargs)
    if ty == "net":
        if name == "overlaps":
            return ip.split(args[0], st, lambda b, s: theory.overlaps(x, L(b)))
        if name == "subnet_of":
            return ip.split(args[0], st, lambda b, s: theory.subnet(x, L(b)))
        if name == "supernet_of":
            return ip.split(args[0], st, lambda b, s: theory.subnet(L(b), x))
        if name == "__contains__":
            return ip.contains(x, args[0], st)
    if ty in ("addr", "net", "iface") and name in ("__str__", "exploded", "compressed"):
        return mkfmt(ip, st, [x])
    if l[1] == "tuple":
        if name in ("index", "count", "__contains__", "__iter__"):
            return method1(ip, st, ip.new_list(st, list(l[2:])).leaf, name, args, kwargs)
    if l[1] == "ntuple":
        if name == "_asdict":
            return ip.new_dict(st, list(zip(l[3].leaf[2:], l[4:])))
        if name == "_replace":
            fields = [f.leaf[2] for f in l[3].leaf[2:]]
            return T("ntuple", l[2], l[3], *[kwargs.get(f, v) for f, v in zip(fields, l[4:])])
    if ty in ("datetime", "time"):
        if name in ("strftime", "isoformat"):
            return T("strftime", x, *(args or [C(name)]))
        if name in ("date", "time"):
            return T("strm", C(name), x)
        if name == "replace":
            return T("datetime", C("replace"), x, *[T("tuple", C(k), v) for k, v in sorted(kwargs.items())])
    if l[1] == "regex" and name == "sub" and len(args) == 2 and len(l) == 3:
        return resub(ip, st, l[2], *args)
    if name == "read":
        if l[1] == "file" and l[2] in FILES:
            if args:
                return ip.top("part of a file")
            r = read_file(ip, st, x)
            return ip.top("text of a file") if r is None else r
        return T("bytes", x)
    if l[1] == "bytes" and l[2].leaf[0] == "t" and l[2].leaf[1] == "file" and l[2].leaf[2] in FILES and name in ("removeprefix", "startswith", "lstrip"):
        bom = FILES[l[2].leaf[2]][1] and len(l) == 3
        if args and const(args[0]) and args[0].leaf[2] == b"\xef\xbb\xbf":
            return C(bool(bom)) if name == "startswith" else T("bytes", l[2], C("no mark")) if bom else x
        if name == "startswith" and args and const(args[0]) and isinstance(args[0].leaf[2], bytes):
            b = first_bytes(l, len(args[0].leaf[2]))
            if b is not None:
                return C(b == args[0].leaf[2])
        return ip.top("bytes.%s" % name)
    if name == "decode":
        src = x.leaf[2].leaf if l[1] == "bytes" else None
        if src and src[0] == "t" and src[1] == "file" and src[2] in FILES:
            r = decode(ip, st, x, (args or [kwargs.get("encoding", C("utf-8"))])[0], (args + [kwargs.get("errors", C("strict"))])[1 if args else 0])
            return ip.top("decoded text") if r is None else r
        if src and src[0] == "t" and src[1] == "urlopen" and src[2] in TABLES:
            return TABLES[src[2]]
        return T("decode", x)
    if name in ("__enter__",):
        return x
    if name in ("close", "__exit__"):
        return NONE
    if ty == "int" and name == "bit_length":
        return T("intlen", x)
    if name == "__eq__":
        return ip.eq(x, args[0], st)
    if ty is not None:
        cls = {"int": (int,), "bool": (bool,), "addr": (_ipa.IPv4Address, _ipa.IPv6Address), "net": (_ipa.IPv4Network, _ipa.IPv6Network),
               "iface": (_ipa.IPv4Interface, _ipa.IPv6Interface), "datetime": (_dt.datetime,), "time": (_dt.time,),
               "timedelta": (_dt.timedelta,), "tuple": (tuple,), "bytes": (bytes,)}.get(ty, (object,))
        if any(hasattr(c, name) for c in cls):
            return ip.top("method %s of %s" % (name, ty))
        ip.raise_(st, ip.exc("AttributeError", name))
        raise Dead()
    if l[1] == "sym" and not tag(l, "cls"):
        h = ip.extover.get("opaque-method")
        if h:
            return h(ip, st, l, name, args, kwargs)
    return ip.top("method %s of opaque value" % name)


def list_method(ip, st, l, o, name, args, kwargs):
    if name == "append":
        ip.setdata(st, l, o.data + ((TRUE, args[0]),))
        return NONE
    if name in ("extend", "__iadd__"):
        items = ip.iterate(args[0], st)
        o = ip.obj(st, l)
        ip.setdata(st, l, o.data + tuple(items))
        return NONE
    if name == "insert":
        def ins(ls, s):
            cur = ip.obj(s, l).data
            k = ls[0]
            if k[0] == "c" and k[2] == 0:
                ip.setdata(s, l, ((TRUE, args[1]),) + cur)
                return NONE

            def at(vals, s2):
                if k[0] != "c":
                    raise Undecided("insert index")
                vals = list(vals)
                vals.insert(k[2], args[1])
                ip.setdata(s2, l, tuple((TRUE, v) for v in vals))
                return NONE
            return ip.with_exact(cur, s, at)
        return split_all(ip, st, [args[0]], ins)
    if name == "remove":
        out = []
        found = FALSE
        for g, v in ip.seq_items(st, o.data):
            e = conj(conj(g, ip.eq(v, args[0], st)), neg(found))
            found = disj(found, e)
            g2 = conj(g, neg(e))
            if restrict(g2, st.pc) is not FALSE:
                out.append((g2, v))
        ip.raise_(st, ip.exc("ValueError"), neg(found))
        ip.setdata(st, l, tuple(out))
        return NONE
    if name == "pop":
        def pop(vals, s):
            k = -1
            if args:
                if not const(args[0]):
                    raise Undecided("pop index")
                k = args[0].leaf[2]
            if not -len(vals) <= k < len(vals):
                ip.raise_(s, ip.exc("IndexError"))
                raise Dead()
            vals = list(vals)
            r = vals.pop(k)
            ip.setdata(s, l, tuple((TRUE, v) for v in vals))
            return r
        return ip.with_exact(o.data, st, pop)
    if name == "clear":
        ip.setdata(st, l, ())
        return NONE
    if name in ("copy", "__iter__"):
        return ip.alloc(st, "list", o.data, meta=o.meta)
    if name == "count":
        r = C(0)
        for g, v in ip.seq_items(st, o.data):
            c = conj(g, ip.eq(v, args[0], st))
            r = ite(c, mapleaf(r, lambda x: C(x[2] + 1)), r)
        return r
    if name == "index":
        def ix(vals, s):
            found = FALSE
            r = None
            for i, v in enumerate(vals):
                e = conj(ip.eq(v, args[0], s), neg(found))
                found = disj(found, e)
                r = C(i) if r is None else ite(e, C(i), r)
            ip.raise_(s, ip.exc("ValueError"), neg(found))
            if r is None:
                raise Dead()
            return r
        return ip.with_exact(o.data, st, ix)
    if name == "reverse":
        ip.setdata(st, l, tuple(reversed(o.data)))
        return NONE
    if name == "sort":
        n = sort_items(ip, st, o.data, kwargs)
        st.heap[l[1]] = Obj("list", o.cls, n[0], dict(o.meta or {}, **n[1]))
        return NONE
    if name == "__contains__":
        return ip.contains(L(l), args[0], st)
    if name == "__len__":
        return length(ip, st, l)
    if name == "__getitem__":
        return ip.getitem(L(l), args[0], st)
    if iskeys(o) and name in ("isdisjoint",):
        return set_method(ip, st, l, o, name, args, kwargs)
    if not hasattr(list, name):
        ip.raise_(st, ip.exc("AttributeError", name))
        raise Dead()
    raise Undecided("list.%s" % name)


def word_items(n):
    if const(n):
        v = n.leaf[2]
        return [(frozenset(c), 1, 1) for c in v] if isinstance(v, str) else None
    if n.var == INF and n.leaf[0] == "t" and n.leaf[1] == "fmt":
        out = []
        for p in n.leaf[2:]:
            i = word_items(p)
            if i is None:
                return None
            out += i
        return out
    if n.var == INF and n.leaf[0] == "t" and n.leaf[1] == "sym":
        r = rx.items_of(n.leaf)
        return r and list(r[0])
    return None


def word_order(a, b):
    """-1, 0, 1: how all words of one class compare to all of another; None if it depends on the words"""
    if a is b:
        return 0
    x, y = word_items(a), word_items(b)
    if x is None or y is None:
        return None

    def chars(items):
        for cs, lo, hi in items:
            for _ in range(lo):
                yield cs
            if hi != lo:
                yield None
        yield "end"
    for p, q in zip(chars(x), chars(y)):
        if p is None or q is None:
            return None
        if "end" in (p, q):
            return 0 if p == q else -1 if p == "end" else 1
        if max(p) < min(q):
            return -1
        if max(q) < min(p):
            return 1
        if p != q or len(p) > 1:
            return None
    return None


def key_order(ip, st, a, b):
    """word_order for keys that may be sequences"""
    if const(a) and const(b):
        x, y = a.leaf[2], b.leaf[2]
        try:
            return -1 if x < y else 1 if y < x else 0
        except TypeError:
            return None
    if a.var == INF and b.var == INF and (a.leaf[0] == b.leaf[0] == "r" or a.leaf[:2] == b.leaf[:2] == ("t", "tuple")):
        if a.leaf[0] == "r":
            p, q = ip.obj(st, a.leaf), ip.obj(st, b.leaf)
            if not p.kind == q.kind == "list":
                return None
            p, q = ip.seq_items(st, p.data), ip.seq_items(st, q.data)
        else:
            p, q = [(TRUE, x) for x in a.leaf[2:]], [(TRUE, x) for x in b.leaf[2:]]
        if any(g is not TRUE for g, _ in p + q):
            return None
        for (_, x), (_, y) in zip(p, q):
            c = key_order(ip, st, x, y)
            if c is None or c:
                return c
        return (len(p) > len(q)) - (len(p) < len(q))
    return word_order(a, b)


def sort_type(n):
    """what the value can be compared with, None if unknown"""
    if n.var != INF:
        return None
    l = n.leaf
    if l[0] == "c":
        v = l[2]
        return "none" if v is None else "int" if isinstance(v, (int, float)) else "str" if isinstance(v, str) else None
    if l[0] == "t":
        t = tyof(l)
        return t if t in ("int", "str") else "tuple" if l[1] == "tuple" else None
    return None


def incomparable(ip, st, a, b):
    """when comparing the two by < raises, as far as known"""
    x, y = sort_type(a), sort_type(b)
    if x is None or y is None:
        return FALSE
    if x != y or x == "none":
        return TRUE
    if x != "tuple":
        return FALSE
    bad, same = FALSE, TRUE
    for p, q in zip(a.leaf[2:], b.leaf[2:]):
        e = ip.compare_op(_ast.Eq(), p, q, st)
        bad = disj(bad, conj(same, conj(neg(e), incomparable(ip, st, p, q))))
        same = conj(same, e)
    return bad


def sort_items(ip, st, data, kwargs):
    items = ip.seq_items(st, data)
    keyf = kwargs.get("key")
    rev = "reverse" in kwargs and kwargs["reverse"] is not FALSE
    keys = []
    for g, v in items:
        k = v if keyf is None or keyf is NONE else ip.branch(g, st, lambda s: ip.call(keyf, [v], {}, s), lambda s: NONE)
        keys.append(restrict(k, g))
    if any(k.var != INF for k in keys) and all(l[0] == "c" for k in keys for _, l in leaves(k)):
        # a member whose key depends on something is one member for each of its keys
        both = [((conj(g, gg), v), L(l)) for (g, v), k in zip(items, keys) for gg, l in leaves(k)]
        items, keys = [x for x, _ in both if x[0] is not FALSE], [k for x, k in both if x[0] is not FALSE]
    if all(const(k) for k in keys):
        try:
            order = sorted(range(len(items)), key=lambda i: keys[i].leaf[2], reverse=rev)
            return tuple(items[i] for i in order), {}
        except TypeError:
            pass
    if len(items) < 2:
        return tuple(items), {}
    # members whose keys cannot be compared meet in any way of sorting
    bad = FALSE
    for i in range(len(keys)):
        for j in range(i):
            bad = disj(bad, conj(conj(items[i][0], items[j][0]), split_all(ip, st, [keys[i], keys[j]], lambda ls, s: incomparable(ip, s, L(ls[0]), L(ls[1])))))
    if bad is TRUE:
        raise_type(ip, st, "sort")
    if bad is not FALSE:
        ip.raise_(st, ip.exc("TypeError"), bad)
    if len(items) < 40:
        cmp = {(i, j): key_order(ip, st, keys[i], keys[j]) for i in range(len(keys)) for j in range(i)}
        if None not in cmp.values():
            order = sorted(range(len(items)), key=functools.cmp_to_key(lambda i, j: cmp[i, j] if i > j else -cmp[j, i] if i < j else 0), reverse=rev)
            return tuple(items[i] for i in order), {}
    if len(items) == 2 and all(g is TRUE for g, _ in items):
        c = ip.compare_op(_ast.Gt() if rev else _ast.Lt(), keys[1], keys[0], st)
        a, b = items[0][1], items[1][1]
        return ((TRUE, ite(c, b, a)), (TRUE, ite(c, a, b))), {}
    return tuple(items), {"perm": tuple(keys) + (rev,)}


def set_method(ip, st, l, o, name, args, kwargs):
    if name == "add":
        v = args[0]
        items = list(o.data)
        chk = mkset(ip, st, [(TRUE, v)])     # hashability
        o = ip.obj(st, l)
        ip.setdata(st, l, tuple(set_combine(ip, st, "or", o.data, ip.obj(st, chk.leaf).data)))
        return NONE
    if name in ("update", "union", "__or__", "__ior__"):
        data = list(o.data)
        for a in args:
            if name.startswith("__") and not (a.var == INF and isset(ip, st, a.leaf)):
                raise_type(ip, st)
            t = mkset(ip, st, ip.iterate(a, st))
            data = set_combine(ip, st, "or", data, ip.obj(st, t.leaf).data)
        if name in ("update", "__ior__"):
            ip.setdata(st, l, tuple(data))
            return NONE if name == "update" else L(l)
        return ip.alloc(st, "set", tuple(data))
    how = {"intersection": "and", "difference": "sub", "symmetric_difference": "xor", "__and__": "and", "__sub__": "sub",
           "__xor__": "xor", "intersection_update": "and", "difference_update": "sub",
           "symmetric_difference_update": "xor"}.get(name)
    if how:
        data = list(o.data)
        for a in args:
            b = leafwise(ip.seq_items(st, ip.iterate(a, st)))
            data = set_combine(ip, st, how, leafwise(data), b)
        data = tuple((g, v) for g, v in data if restrict(g, st.pc) is not FALSE)
        if name.endswith("_update"):
            ip.setdata(st, l, data)
            return NONE
        return mkset(ip, st, data)
    if name in ("discard", "remove"):
        out = []
        found = FALSE
        for g, v in o.data:
            e = ip.eq(v, args[0], st)
            found = disj(found, conj(g, e))
            out.append((conj(g, neg(e)), v))
        if name == "remove":
            ip.raise_(st, ip.exc("KeyError"), neg(found))
        ip.setdata(st, l, tuple((g, v) for g, v in out if g is not FALSE))
        return NONE
    if name == "clear":
        ip.setdata(st, l, ())
        return NONE
    if name in ("copy", "__iter__"):
        return ip.alloc(st, "set" if name == "copy" else "list", o.data)
    if name in ("issubset", "issuperset", "isdisjoint"):
        b = leafwise(ip.seq_items(st, ip.iterate(args[0], st)))
        a = leafwise(o.data)
        if name == "issuperset":
            a, b = b, a
        r = TRUE
        for g, v in a:
            c = ip.contains_seq(b, v, st, True)
            r = conj(r, disj(neg(g), neg(c) if name == "isdisjoint" else c))
        return r
    if name == "pop":
        def pop(vals, s):
            if not vals:
                ip.raise_(s, ip.exc("KeyError"))
                raise Dead()
            ip.setdata(s, l, tuple((TRUE, v) for v in vals[1:]))
            return vals[0]
        return ip.with_exact(o.data, st, pop)
    if name == "__contains__":
        return ip.contains(L(l), args[0], st)
    if name == "__len__":
        return length(ip, st, l)
    if not hasattr(set, name):
        ip.raise_(st, ip.exc("AttributeError", name))
        raise Dead()
    raise Undecided("set.%s" % name)


def mixed(o):
    return {"perm": ("keys",)} if o.meta and o.meta.get("mixed") else {}


def dict_method(ip, st, l, o, name, args, kwargs):
    if name == "get":
        d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        p, v = ip.dict_find(st, l, args[0])
        return ite(restrict(p, st.pc), v, d) if v is not None else d
    opaque = o.meta and o.meta.get("opaque")
    if name in ("items", "keys", "values", "__iter__", "popitem") and opaque:
        raise Undecided("iteration over opaque table")
    if name in ("keys", "__iter__"):
        return ip.alloc(st, "list", tuple((g, k) for k, g, v in o.data), meta=dict(view="keys", **mixed(o)))
    if name == "items":
        return ip.alloc(st, "list", tuple((g, T("tuple", k, v)) for k, g, v in o.data), meta=dict(view="items", **mixed(o)))
    if name == "values":
        return ip.alloc(st, "list", tuple((g, v) for k, g, v in o.data), meta=mixed(o) or None)
    if name == "setdefault":
        d = args[1] if len(args) > 1 else NONE
        p, v = ip.dict_find(st, l, args[0])

        def absent(s):
            ip.dict_set(s, l, args[0], d)
            return d
        return ip.branch(p, st, lambda s: v, absent)
    if name == "update":
        for a in args:
            def up(al, s):
                if al[0] == "r" and ip.obj(s, al).kind in ("dict", "ast"):
                    for k, g, v in ip.obj(s, al).data:
                        ip.branch(g, s, lambda s2: ip.dict_set(s2, l, k, v), lambda s2: None)
                else:
                    for g, it in ip.iterate(L(al), s):
                        def one(s2):
                            kv = ip.iterate(it, s2)
                            ip.dict_set(s2, l, kv[0][1], kv[1][1])
                        ip.branch(g, s, one, lambda s2: None)
                return NONE
            ip.split(a, st, up)
        for k, v in kwargs.items():
            ip.dict_set(st, l, C(k), v)
        return NONE
    if name == "pop":
        p, v = ip.dict_find(st, l, args[0])
        if len(args) > 1:
            r = ite(restrict(p, st.pc), v, args[1]) if v is not None else args[1]

            def rm(s):
                ip.dict_del(s, l, args[0])
            ip.branch(p, st, rm, lambda s: None)
            return r
        if v is None:
            ip.raise_(st, ip.exc("KeyError"))
            raise Dead()
        ip.dict_del(st, l, args[0])
        return v
    if name == "copy":
        return ip.alloc(st, o.kind, o.data, meta=o.meta)
    if name == "clear":
        ip.setdata(st, l, ())
        return NONE
    if name == "__contains__":
        return ip.contains(L(l), args[0], st)
    if name == "__getitem__":
        return ip.getitem(L(l), args[0], st)
    if name == "__setitem__":
        ip.setitem(L(l), args[0], args[1], st)
        return NONE
    if name == "__delitem__":
        ip.delitem(L(l), args[0], st)
        return NONE
    if name == "__len__":
        return length(ip, st, l)
    if not hasattr(dict, name):
        ip.raise_(st, ip.exc("AttributeError", name))
        raise Dead()
    raise Undecided("dict.%s" % name)


def xml_find(ip, st, o, path):
    """items [(guard, child)] matching a simple child path"""
    cur = [(TRUE, None, o)]
    out = []
    head, _, rest = path.partition("/")
    for g, c in o.data["children"]:
        for gg, cl in leaves(c):
            co = ip.obj(st, cl)
            m = theory.eq_nodes(ip, st, co.data["tag"], C(head)) if head != "*" else TRUE
            g2 = conj(conj(g, gg), m)
            if g2 is FALSE:
                continue
            if rest:
                out.extend((conj(g2, g3), x) for g3, x in xml_find(ip, st, co, rest))
            else:
                out.append((g2, L(cl)))
    return out


def xml_method(ip, st, l, o, name, args, kwargs):
    if name in ("findall", "iterfind", "find", "findtext"):
        if not const(args[0]):
            raise Undecided("xml path")
        path = args[0].leaf[2]
        if path.startswith("./"):
            path = path[2:]
        items = xml_find(ip, st, o, path)
        if name in ("findall", "iterfind"):
            return ip.new_seq(st, items)
        found = FALSE
        r = NONE if name == "find" or len(args) < 2 else args[1]
        for g, x in reversed(items):
            v = x if name == "find" else ip.obj(st, x.leaf).data["text"]
            if name == "findtext":
                v = mapleaf(v, lambda q: C("") if q == NONE.leaf else L(q))
            r = ite(g, v, r)
        return r
    if name == "get":
        return args[1] if len(args) > 1 else NONE
    if name in ("getchildren", "iter", "__iter__") and name != "iter":
        return ip.new_seq(st, o.data["children"])
    if name == "__len__":
        return length(ip, st, l)
    raise Undecided("xml.%s" % name)


def length(ip, st, l):
    if l[0] == "c":
        try:
            return C(len(l[2]))
        except TypeError:
            raise_type(ip, st)
    if l[0] == "t":
        if l[1] in ("tuple",):
            return C(len(l) - 2)
        if l[1] == "ntuple":
            return C(len(l) - 4)
        if tyof(l) == "str" or tyof(l) is None:
            return T("len", L(l))
        raise_type(ip, st)
    if l[0] == "r":
        o = ip.obj(st, l)
        if lazy(o):
            raise_type(ip, st, "object has no len()")
        if o.kind in ("list", "set"):
            items = ip.seq_items(st, o.data)
        elif o.kind in ("dict", "ast"):
            if o.meta and o.meta.get("opaque"):
                return T("len", L(l))
            items = ip.seq_items(st, [(g, k) for k, g, v in o.data])
        elif o.kind == "xml":
            items = ip.seq_items(st, o.data["children"])
        elif o.kind == "inst":
            if ip.has_method(st, l, ("__len__",)):
                return ip.call_method(L(l), "__len__", [], {}, st)
            raise_type(ip, st)
        r = C(0)
        for i, (g, v) in enumerate(items):
            if o.kind != "list":
                dup = FALSE
                for g2, v2 in items[:i]:
                    dup = disj(dup, conj(g2, theory.eq_nodes(ip, st, v, v2)))
                g = conj(g, neg(dup))
            r = ite(g, mapleaf(r, lambda x: C(x[2] + 1)), r)
        return r
    if l[0] == "top":
        return ip.top("len")
    raise_type(ip, st)


# ------------------------------------------------------------------ external calls
def ext_attr(ip, st, dotted, name):
    if dotted == "string":
        v = getattr(_string, name, None)
        if isinstance(v, str):
            return C(v)
    if dotted in ("codecs", "math", "ipaddress", "os", "os.path", "datetime", "calendar", "sys"):
        v = getattr(importlib.import_module(dotted), name, None)
        if type(v) in (str, bytes, int, float) and (dotted, name) not in (("sys", "argv"), ("os", "name")):
            return C(v)
        if dotted == "calendar" and name in ("month_name", "month_abbr", "day_name", "day_abbr"):
            return C(tuple(v))
    if name in ("__name__", "__qualname__"):
        return C(dotted.split(".")[-1])
    if name == "__class__":
        return L(("ext", "builtins.type"))
    return None


BUILTIN = {}
EXT = {}


def bi(*names):
    def d(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return d


def ex(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def ext_call(ip, st, dotted, args, kwargs, site=None):
    ov = ip.extover.get(dotted)
    if ov:
        return ov(ip, st, args, kwargs)
    if dotted.startswith("builtins."):
        n = dotted[9:]
        f = BUILTIN.get(n)
        if f:
            return f(ip, st, args, kwargs)
        b = getattr(builtins, n, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return T("exc", n, *args)
        if n.startswith("object."):
            return NONE
        if "." in n:
            # unbound builtin method: str.lower(x), dict.update(d, ..), set.union(a, b)
            t, _, m = n.partition(".")
            if args:
                return method(ip, st, args[0], m, args[1:], kwargs)
        ip.effects.append((dotted, site))
        return ip.top("builtin %s" % n)
    f = EXT.get(dotted)
    if f:
        return f(ip, st, args, kwargs)
    n = dotted.split(".")[-1]
    if n in EXC_PARENTS or n.endswith("Error") or n.endswith("Exception"):
        return T("exc", n, *args)
    if dotted.startswith("logging.") or dotted.startswith("warnings."):
        if n == "getLogger":
            return L(("ext", "logging.Logger"))
        return NONE
    if dotted.startswith("operator."):
        return operator_call(ip, st, n, args, kwargs)
    ip.effects.append((dotted, site))
    note_effect(ip, st, dotted, args)
    return ip.top("call of %s" % dotted)


def note_effect(ip, st, what, args):
    o = st.heap.get(-1)
    data = o.data if o else ()
    st.heap[-1] = Obj("list", None, data + ((st.pc, T("effect", what, *args)),), None)


def operator_call(ip, st, n, args, kwargs):
    ops = {"and_": _ast.BitAnd, "or_": _ast.BitOr, "xor": _ast.BitXor, "sub": _ast.Sub, "add": _ast.Add, "concat": _ast.Add}
    if n in ops:
        return ip.binop(ops[n](), args[0], args[1], st)
    cmpo = {"eq": _ast.Eq, "ne": _ast.NotEq, "lt": _ast.Lt, "le": _ast.LtE, "gt": _ast.Gt, "ge": _ast.GtE, "is_": _ast.Is,
            "is_not": _ast.IsNot}
    if n in cmpo:
        return ip.compare_op(cmpo[n](), args[0], args[1], st)
    if n == "contains":
        return ip.contains(args[0], args[1], st)
    if n == "not_":
        return neg(ip.truth(args[0], st))
    if n == "attrgetter" and args and all(const(x) for x in args):
        paths = [x.leaf[2].split(".") for x in args]

        def get(ip2, s, a, k):
            got = []
            for path in paths:
                v = a[0]
                for p in path:
                    v = ip2.getattr(v, p, s)
                got.append(v)
            return got[0] if len(got) == 1 else T("tuple", *got)
        return L(("pyfn", get))
    if n == "itemgetter" and args:
        def items(ip2, s, a, k):
            got = [ip2.getitem(a[0], ix, s) for ix in args]
            return got[0] if len(got) == 1 else T("tuple", *got)
        return L(("pyfn", items))
    if n == "methodcaller" and args and const(args[0]):
        name = args[0].leaf[2]
        return L(("pyfn", lambda ip2, s, a, k: ip2.call_method(a[0], name, list(args[1:]), dict(kwargs), s)))
    if n in ("truth",) and args:
        return ip.truth(args[0], st)
    if n == "getitem" and len(args) == 2:
        return ip.getitem(args[0], args[1], st)
    return ip.top("operator.%s" % n)


@bi("len")
def b_len(ip, st, a, k):
    return ip.split(a[0], st, lambda l, s: length(ip, s, l))


@bi("isinstance")
def b_isinstance(ip, st, a, k):
    return ip.split(a[1], st, lambda c, s: isinstance_(ip, s, a[0], L(c)))


@bi("issubclass")
def b_issubclass(ip, st, a, k):
    names = class_names(ip, st, a[1])

    def f(l, s):
        if l[0] == "class":
            return C(any(n in l[1].mro_names() for n in names))
        if l[0] == "ext":
            return C(any(n in ext_mro(l[1]) for n in names))
        if l[0] == "t" and l[1] == "type":
            return isinstance_(ip, s, l[2], a[1])
        raise_type(ip, s)
    return ip.split(a[0], st, f)


@bi("type")
def b_type(ip, st, a, k):
    if len(a) != 1:
        raise Undecided("type()")
    return ip.split(a[0], st, lambda l, s: ip.typeof(l, s))


@bi("list")
def b_list(ip, st, a, k):
    if not a:
        return ip.new_list(st, [])
    return ip.new_seq(st, tuple(ip.iterate(a[0], st)))


@bi("iter")
def b_iter(ip, st, a, k):
    if len(a) > 1:
        raise Undecided("iter with a sentinel")

    def f(l, s):
        if ip.lazy_iter(L(l), s):
            return L(l)
        if l[0] == "r" and ip.obj(s, l).kind == "inst" and ip.has_method(s, l, ("__iter__",)):
            return ip.call_method(L(l), "__iter__", [], {}, s)
        return one_shot(ip, s, ip.iterate1(l, s))
    return ip.split(a[0], st, f)


def one_shot(ip, st, items):
    return ip.alloc(st, "list", tuple(items), meta={"iter": True})


@bi("next")
def b_next(ip, st, a, k):
    def f(l, s):
        if l[0] != "r":
            raise_type(ip, s)
        o = ip.obj(s, l)
        if o.kind == "inst":
            return ip.call_method(L(l), "__next__", [], {}, s)
        if o.kind == "gen":
            hits, outs = ip.first(L(l), s, lambda v, s2: (TRUE, v))
            for s2, _ in hits:
                ip.setdata(s2, l, ("partial",))
            for s2, _ in outs:
                if len(a) < 2:
                    try:
                        ip.raise_(s2, ip.exc("StopIteration"))
                    except Dead:
                        pass
                else:
                    hits.append((s2, a[1]))
            return ip.join(s, hits)
        if not lazy(o):
            raise_type(ip, s)
        items = ip.seq_items(s, o.data)
        none = TRUE
        for g, _ in items:
            none = conj(none, neg(g))
        if len(a) < 2:
            ip.raise_(s, ip.exc("StopIteration"), none)
            r = None
        else:
            r = a[1]
        taken = FALSE
        out = []
        vals = []
        for g, v in items:
            first = conj(g, neg(taken))
            vals.append((first, v))
            out.append((conj(g, taken), v))
            taken = disj(taken, g)
        for g, v in reversed(vals):
            r = v if r is None else ite(restrict(g, s.pc), v, r)
        ip.setdata(s, l, tuple((g, v) for g, v in out if g is not FALSE))
        return r if r is not None else NONE
    return ip.split(a[0], st, f)


@bi("tuple")
def b_tuple(ip, st, a, k):
    if not a:
        return T("tuple")
    return ip.with_exact(ip.iterate(a[0], st), st, lambda vs, s: T("tuple", *vs))


@bi("set")
def b_set(ip, st, a, k):
    return mkset(ip, st, ip.iterate_any(a[0], st) if a else [])


@bi("frozenset")
def b_frozenset(ip, st, a, k):
    return mkset(ip, st, ip.iterate_any(a[0], st) if a else [], frozen=True)


@bi("dict")
def b_dict(ip, st, a, k):
    d = ip.new_dict(st, [])
    dict_method(ip, st, d.leaf, ip.obj(st, d.leaf), "update", a, k)
    return d


@bi("sorted")
def b_sorted(ip, st, a, k):
    data, meta = sort_items(ip, st, ip.iterate_any(a[0], st), k)
    return ip.alloc(st, "list", data, meta=meta or None)


def lazy(o):
    return o.kind == "gen" or bool(o.meta) and "iter" in o.meta


@bi("reversed")
def b_reversed(ip, st, a, k):
    def f(l, s):
        if l[0] == "r" and (lazy(ip.obj(s, l)) or ip.obj(s, l).kind == "set"):
            raise_type(ip, s)
        return one_shot(ip, s, reversed(ip.iterate1(l, s)))
    return ip.split(a[0], st, f)


def quantifier(ip, st, a, want):
    if not ip.lazy_iter(a[0], st):
        r = FALSE
        for g, v in ip.iterate_any(a[0], st):
            t = ip.truth(v, st)
            r = disj(r, conj(g, t if want else neg(t)))
        return r if want else neg(r)

    def found(v, s):
        t = ip.truth(v, s)
        return (t if want else neg(t)), C(want)
    hits, outs = ip.first(a[0], st, found)
    return ip.join(st, hits + [(s, C(not want)) for s, _ in outs])


@bi("any")
def b_any(ip, st, a, k):
    return quantifier(ip, st, a, True)


@bi("all")
def b_all(ip, st, a, k):
    return quantifier(ip, st, a, False)


@bi("filter")
def b_filter(ip, st, a, k):
    src = b_iter(ip, st, [a[1]], {})

    def runner(s, each):
        def cb(v, s2):
            c = ip.truth(v if a[0] is NONE else ip.call(a[0], [v], {}, s2), s2)
            ip.branch(c, s2, lambda s3: each(v, s3), lambda s3: None)
        ip.each(src, s, cb)
        return NONE
    return ip.mkgen(st, runner)


@bi("map")
def b_map(ip, st, a, k):
    z = b_zip(ip, st, a[1:], {}) if len(a) > 2 else b_iter(ip, st, [a[1]], {})

    def runner(s, each):
        def cb(v, s2):
            each(ip.call(a[0], list(v.leaf[2:]) if len(a) > 2 else [v], {}, s2), s2)
        ip.each(z, s, cb)
        return NONE
    return ip.mkgen(st, runner)


@bi("zip")
def b_zip(ip, st, a, k):
    if set(k) - {"strict"}:
        raise_type(ip, st)
    strict = k.get("strict", FALSE) is not FALSE
    a = [restrict(x, st.pc) for x in a]
    same = [x for x in a if ip.lazy_iter(x, st)]
    n = 0
    if len(set(same)) < len(same):
        if len(set(a)) > 1 or strict:
            raise Undecided("zip of shared iterators")
        items = ip.seq_items(st, ip.iterate(a[0], st))
        if any(g is not TRUE for g, _ in items):
            raise Undecided("zip of shared iterators")
        n = len(a)
        return one_shot(ip, st, [(TRUE, T("tuple", *[v for _, v in items[i:i + n]])) for i in range(0, len(items) - n + 1, n)])
    cols = [ip.seq_items(st, ip.iterate(x, st)) for x in a]

    def rows(cols, s):
        out = [(TRUE, T("tuple", *row)) for row in zip(*cols)]
        if strict and len({len(c) for c in cols}) > 1:
            def runner(s2, each):
                for _, v in out:
                    each(v, s2)
                ip.raise_(s2, ip.exc("ValueError", C("zip() arguments have different lengths")))
            return ip.mkgen(s, runner)
        return one_shot(ip, s, out)
    if all(g is TRUE for c in cols for g, _ in c):
        return rows([[v for _, v in c] for c in cols], st)

    def go(i, acc, s):
        if i == len(cols):
            return rows(acc, s)
        return ip.with_exact(cols[i], s, lambda vs, s2: go(i + 1, acc + [vs], s2))
    return go(0, [], st)


@bi("enumerate")
def b_enumerate(ip, st, a, k):
    n0 = 0
    s0 = a[1] if len(a) > 1 else k.get("start")
    if s0 is not None:
        if not const(s0):
            raise Undecided("enumerate from an unknown number")
        n0 = s0.leaf[2]
    if any(l[0] == "r" and st.heap[l[1]].kind == "gen" for _, l in leaves(restrict(a[0], st.pc))):
        src = a[0]

        def runner(s, each):
            cnt = ip.alloc(s, "inst", {"n": C(n0)}, cls="analysis.counter")

            def cb(v, s2):
                n = restrict(ip.obj(s2, cnt.leaf).data["n"], s2.pc)
                ip.setdata(s2, cnt.leaf, {"n": mapleaf(n, lambda x: C(x[2] + 1))})
                ip.split(n, s2, lambda l, s3: each(T("tuple", L(l), v), s3))
            ip.each(src, s, cb)
            return NONE
        return ip.mkgen(st, runner)
    items = ip.seq_items(st, ip.iterate(a[0], st))
    n = C(n0)
    out = []
    for g, v in items:
        out.append((g, T("tuple", restrict(n, g) if g is not TRUE else n, v)) if n.var == INF else (g, None))
        if out[-1][1] is None:
            # index depends on earlier guards
            for gg, nl in leaves(restrict(n, g)):
                out.append((conj(g, gg), T("tuple", L(nl), v)))
            out = [x for x in out if x[1] is not None]
        n = ite(g, mapleaf(n, lambda x: C(x[2] + 1)), n)
    return one_shot(ip, st, out)


@bi("range")
def b_range(ip, st, a, k):
    def f(ls, s):
        if all(x[0] == "c" for x in ls):
            return C(range(*[x[2] for x in ls]))
        return ip.top("range")
    return split_all(ip, st, a, f)


def extreme(op):
    def f(ip, st, a, k):
        guarded = [(TRUE, v) for v in a] if len(a) > 1 else list(ip.seq_items(st, ip.iterate(a[0], st)))
        if set(k) - {"key", "default"} or len(guarded) > 12:
            return ip.top("min/max")
        if any(g is not TRUE for g, _ in guarded):
            return ip.with_exact(guarded, st, lambda vs, s: pick(ip, s, [(TRUE, v) for v in vs], k))
        return pick(ip, st, guarded, k)

    def pick(ip, st, guarded, k):
        if not guarded:
            if "default" in k:
                return k["default"]
            ip.raise_(st, ip.exc("ValueError"))
            raise Dead()
        keyf = k.get("key")
        best = bestk = None
        for _, v in guarded:
            kv = v if keyf is None or keyf is NONE else ip.call(keyf, [v], {}, st)
            if best is None:
                best, bestk = v, kv
                continue
            # the first of equals is kept
            c = ip.compare_op(op(), kv, bestk, st)
            best, bestk = ite(c, v, best), ite(c, kv, bestk)
        return best
    return f


bi("min")(extreme(_ast.Lt))
bi("max")(extreme(_ast.Gt))


@bi("sum")
def b_sum(ip, st, a, k):
    r = a[1] if len(a) > 1 else k.get("start", C(0))
    for g, v in ip.seq_items(st, ip.iterate(a[0], st)):
        cur = r
        r = ip.branch(g, st, lambda s: ip.binop(_ast.Add(), cur, v, s), lambda s: cur)
    return r


@bi("int")
def b_int(ip, st, a, k):
    if not a:
        return C(0)
    if len(a) > 1 or k:
        return split_all(ip, st, list(a), lambda ls, s: C(int(*[x[2] for x in ls])) if all(x[0] == "c" for x in ls) else T("arith", "intbase", *[L(x) for x in ls]))

    def f(l, s):
        if l[0] == "c":
            try:
                return C(int(l[2]))
            except (ValueError, TypeError) as e:
                ip.raise_(s, ip.exc(type(e).__name__))
                raise Dead()
        if l[0] == "t":
            ty = tyof(l)
            if ty == "int":
                return L(l)
            if ty in ("addr", "iface"):
                v = concrete(L(l))
                return C(int(v)) if v is not None else T("int", L(l))
            if ty == "str" or ty is None:
                if not tag(l, "numeric"):
                    if tag(l, "cls"):
                        raise_type(ip, s)
                    vals = tag(l, "values")
                    if vals is not None:
                        if not any(v.isdigit() for v in vals):
                            ip.raise_(s, ip.exc("ValueError"))
                            raise Dead()
                    if no_int(l):
                        ip.raise_(s, ip.exc("ValueError"))
                        raise Dead()
                    fails(ip, s, "int", "ValueError", L(l))
                return T("int", L(l))
            raise_type(ip, s)
        if l[0] == "top":
            return ip.top("int")
        raise_type(ip, s)
    return ip.split(a[0], st, f)


@bi("int.from_bytes")
def b_frombytes(ip, st, a, k):
    if not all(const(x) for x in list(a) + list(k.values())):
        return ip.top("int.from_bytes")
    return C(int.from_bytes(*[x.leaf[2] for x in a], **{n: x.leaf[2] for n, x in k.items()}))


@bi("str")
def b_str(ip, st, a, k):
    if not a:
        return C("")

    def f(l, s):
        if l[0] == "t" and l[1] == "bytes" and l[2].leaf[1] == "file" and l[2].leaf[2] in FILES and (len(a) > 1 or k):
            r = decode(ip, s, L(l), a[1] if len(a) > 1 else k.get("encoding", C("utf-8")), C("strict"))
            return ip.top("decoded text") if r is None else r
        if l[0] == "r" and ip.has_method(s, l, ("__str__",)):
            return ip.call_method(L(l), "__str__", [], {}, s)
        return mkfmt(ip, s, [L(l)])
    return ip.split(a[0], st, f)


@bi("bool")
def b_bool(ip, st, a, k):
    return ip.truth(a[0], st) if a else FALSE


@bi("repr", "ascii")
def b_repr(ip, st, a, k):
    return ip.split(a[0], st, lambda l, s: repr_(ip, s, l))


@bi("getattr")
def b_getattr(ip, st, a, k):
    def f(l, s):
        if l[0] != "c":
            raise Undecided("dynamic attribute name")
        return ip.getattr(a[0], l[2], s, a[2] if len(a) > 2 else None)
    return ip.split(a[1], st, f)


@bi("hasattr")
def b_hasattr(ip, st, a, k):
    def f(l, s):
        if l[0] != "c":
            raise Undecided("dynamic attribute name")
        v = ip.getattr(a[0], l[2], s, SENT)
        return mapleaf(v, lambda x: C(x != SENT.leaf))
    return ip.split(a[1], st, f)


@bi("setattr")
def b_setattr(ip, st, a, k):
    def f(l, s):
        if l[0] != "c":
            raise Undecided("dynamic attribute name")
        ip.setattr(a[0], l[2], a[2], s)
        return NONE
    return ip.split(a[1], st, f)


@bi("delattr")
def b_delattr(ip, st, a, k):
    def f(l, s):
        ip.delattr(a[0], l[2], s)
        return NONE
    return ip.split(a[1], st, f)


@bi("callable")
def b_callable(ip, st, a, k):
    return ip.split(a[0], st, lambda l, s: C(l[0] in ("func", "bound", "class", "ext", "bm", "partial", "pyfn")))


@bi("vars")
def b_vars(ip, st, a, k):
    return ip.getattr(a[0], "__dict__", st)


@bi("id")
def b_id(ip, st, a, k):
    return T("id", a[0])


@bi("hash")
def b_hash(ip, st, a, k):
    def f(l, s):
        if l[0] == "r":
            if ip.has_method(s, l, ("__hash__",)):
                return ip.call_method(L(l), "__hash__", [], {}, s)
            if ip.obj(s, l).kind != "inst":
                raise_type(ip, s)
            return T("id", L(l))
        return T("hash", L(l))
    return ip.split(a[0], st, f)


@bi("print")
def b_print(ip, st, a, k):
    if ip.deep:
        mkfmt(ip, st, a)
    return NONE


@bi("chr", "ord", "abs", "round", "float", "pow", "hex", "bin", "format", "bytes")
def b_misc(ip, st, a, k):
    return ip.top("numeric builtin")


@bi("object")
def b_object(ip, st, a, k):
    return ip.alloc(st, "inst", {}, cls="builtins.object")


@bi("open")
def b_open(ip, st, a, k):
    note_effect(ip, st, "open", a)
    if a[0] in FILES:
        mode = a[1] if len(a) > 1 else k.get("mode", C("r"))
        return T("file", a[0], mode, k.get("encoding", C("utf-8")), k.get("newline", NONE))
    return T("file", *a)


@bi("staticmethod", "classmethod", "property")
def b_deco(ip, st, a, k):
    return a[0]


# ------------------------------------------------------------------ ipaddress
ADDRCH = frozenset("0123456789abcdefABCDEF:.%")


def no_address(l):
    """a word of a class which always holds a character no address holds (zone identifiers aside)"""
    parts = text_parts(l)
    return parts is not None and text_has(l, "%") is False and beyond(parts, ADDRCH)


def beyond(parts, chars):
    """a text which always holds some other character"""
    for p, k in parts:
        if k is None:
            if frozenset(p) - chars:
                return True
        elif all(any(lo and not c & chars for c, lo, _ in rx.shape(sh)) for sh in tag(p.leaf, "shapes")):
            return True
    return False


def no_int(l):
    parts = text_parts(l)
    return parts is not None and beyond(parts, frozenset("0123456789_+-" + SPACE))


def addr_arg(ip, st, l):
    """ip_address(l) -> address node"""
    if l[0] == "t" and tyof(l) == "addr":
        return L(l)
    if l[0] == "t" and tyof(l) == "iface":
        return T("iface_ip", L(l))
    if l[0] == "c":
        try:
            _ipa.ip_address(l[2])
        except (ValueError, TypeError) as e:
            ip.raise_(st, ip.exc("ValueError"))
            raise Dead()
        return T("ip_address", L(l))
    if l[0] == "r" or (l[0] == "t" and tag(l, "cls")) or l[0] == "class":
        ip.raise_(st, ip.exc("ValueError"))
        raise Dead()
    if l[0] == "top":
        return ip.top("ip_address")
    if not tag(l, "ipok"):
        if no_address(l):
            ip.raise_(st, ip.exc("ValueError"))
            raise Dead()
        fails(ip, st, "ip_address", "ValueError", L(l))
    return T("ip_address", L(l))


@ex("ipaddress.ip_address", "ipaddress.IPv4Address", "ipaddress.IPv6Address")
def x_ip_address(ip, st, a, k):
    v = a[0] if a else k["address"]
    return ip.split(v, st, lambda l, s: addr_arg(ip, s, l))


def fam_addr(which):
    def f(ip, st, a, k):
        r = x_ip_address(ip, st, a, k)
        v4 = theory.v4(r)
        ip.raise_(st, ip.exc("ValueError"), neg(v4) if which == 4 else v4)
        return r
    return f


EXT["ipaddress.IPv4Address"] = fam_addr(4)
EXT["ipaddress.IPv6Address"] = fam_addr(6)


def concrete(n):
    """address or network value of a term without unknowns, else None"""
    l = n.leaf
    if l is None:
        return None
    if l[0] == "c":
        return l[2]
    if l[0] != "t":
        return None
    a = [concrete(x) for x in l[2:] if isinstance(x, Node)]
    if not a or any(x is None for x in a):
        return None
    try:
        if l[1] == "ip_address":
            return _ipa.ip_address(a[0])
        if l[1] == "net":
            return _ipa.ip_network("%s/%s" % (a[0], a[1]), strict=False)
        if l[1] == "net1":
            return _ipa.ip_network(a[0], strict=False)
        if l[1] == "netaddr":
            return a[0].network_address
        if l[1] == "bcast":
            return a[0].broadcast_address
        if l[1] == "netmask":
            return a[0].netmask
    except (ValueError, TypeError, AttributeError):
        return None
    return None


def mknet(ip, st, a, n, strict, kind="net"):
    """network from address and mask/prefix nodes (single leaves)"""
    al, nl = a.leaf, n.leaf
    if al[0] == "top" or nl[0] == "top":
        return ip.top("network")
    if al[0] == "r" or nl[0] == "r":
        ip.raise_(st, ip.exc("ValueError"))
        raise Dead()
    for q in (al, nl):
        if q[0] == "c" and q[2] is None:
            ip.raise_(st, ip.exc("ValueError"))
            raise Dead()
    if nl[0] == "t" and nl[1] == "ip_address" and const(nl[2]):
        n, nl = nl[2], nl[2].leaf
    if nl[0] == "c" and isinstance(nl[2], str) and "." in nl[2]:
        try:
            plen = _ipa.IPv4Network("0.0.0.0/" + nl[2]).prefixlen
        except ValueError:
            ip.raise_(st, ip.exc("ValueError"))
            raise Dead()
        v6 = neg(theory.v4b(a)) if not (al[0] == "t" and al[1] == "netaddr") else neg(theory.v4(al[2]))
        if v6 is not FALSE:
            ip.raise_(st, ip.exc("ValueError"), v6)
        n = C(plen)
        nl = n.leaf
    if nl[0] == "c" and isinstance(nl[2], str) and nl[2].isdigit():
        n, nl = C(int(nl[2])), C(int(nl[2])).leaf
    if nl[0] == "t" and tyof(nl) == "str" and nl[1] == "fmt" and len(nl) == 3:
        n, nl = nl[2], nl[2].leaf
    if nl[0] == "t" and nl[1] == "netmask":
        # written as an address a mask only exists for IPv4
        v6 = neg(theory.v4(al[2])) if al[0] == "t" and al[1] == "netaddr" else neg(theory.v4b(a))
        if v6 is not FALSE:
            ip.raise_(st, ip.exc("ValueError"), v6)
    if al[0] == "t" and al[1] == "netaddr" and nl[0] == "t" and nl[1] in ("prefixlen", "netmask") and nl[2] is al[2] and kind == "net":
        return al[2]
    if al[0] == "t" and al[1] == "netaddr" and nl[0] == "t" and nl[1] == "hostmask" and nl[2] is al[2] and kind == "net":
        return T("hostmasknet", al[2])
    if al[0] == "t" and al[1] == "ip_address":
        a = al[2]
        al = a.leaf
    known = al[0] == "t" and (tyof(al) == "addr" or tag(al, "ipok"))
    if al[0] == "c" and nl[0] == "c":
        try:
            x = _ipa.ip_network("%s/%s" % (al[2], nl[2]), strict=strict and kind == "net")
        except ValueError:
            ip.raise_(st, ip.exc("ValueError"))
            raise Dead()
        if kind == "net":
            return T("net", C(str(x.network_address)), C(x.prefixlen))
        return T("ip_iface", C(str(_ipa.ip_address(al[2]))), C(x.prefixlen))
    if not known and al[0] != "c":
        fails(ip, st, "ip_address", "ValueError", a)
    if not (tag(nl, "prefixok") or (nl[0] == "t" and nl[1] in ("prefixlen", "netmask"))):
        if nl[0] == "c" and isinstance(nl[2], int) and 0 <= nl[2] <= 32:
            pass
        elif nl[0] == "c" and isinstance(nl[2], int) and 32 < nl[2] <= 128:
            ip.raise_(st, ip.exc("ValueError"), theory.v4b(a))
        elif nl[0] == "c":
            ip.raise_(st, ip.exc("ValueError"))
            raise Dead()
        else:
            fails(ip, st, "netmask", "ValueError", n)
    if strict and kind == "net":
        if not (nl[0] == "c" and nl[2] in (32, 128)):
            fails(ip, st, "hostbits", "ValueError", a, n)
    return T("net" if kind == "net" else "ip_iface", a, n)


def net_of(ip, st, l, strict, kind):
    if l[0] == "t" and l[1] == "fmt" and len(l) == 5 and l[3] is C("/"):
        return mknet(ip, st, l[2], l[4], strict, kind)
    if l[0] == "t" and l[1] == "fmt" and len(l) == 4 and const(l[3]) and l[3].leaf[2].startswith("/"):
        return mknet(ip, st, l[2], C(l[3].leaf[2][1:]), strict, kind)
    if l[0] == "t" and l[1] == "fmt" and len(l) == 4 and const(l[2]) and l[2].leaf[2].endswith("/"):
        return mknet(ip, st, C(l[2].leaf[2][:-1]), l[3], strict, kind)
    if l[0] == "t" and l[1] == "tuple":
        if len(l) == 3:
            return mknet(ip, st, l[2], C(32), strict, kind)
        return split_all(ip, st, [l[2], l[3]], lambda ls, s: mknet(ip, s, L(ls[0]), L(ls[1]), strict, kind))
    if l[0] == "c":
        try:
            _ipa.ip_network(l[2], strict=strict)
        except (ValueError, TypeError):
            ip.raise_(st, ip.exc("ValueError"))
            raise Dead()
        if isinstance(l[2], str):
            x, _, y = l[2].partition("/")
            return mknet(ip, st, C(x), C(y or (128 if ":" in x else 32)), strict, kind)
        return T("net1" if kind == "net" else "ip_iface", L(l))
    if l[0] == "t":
        if tyof(l) == "net":
            return L(l)
        if tyof(l) == "addr":
            return ite(theory.v4(L(l)), T("net", L(l), C(32)), T("net", L(l), C(128)))
        fails(ip, st, "ip_network" if strict else "ip_network_loose", "ValueError", L(l))
        return T("net1" if kind == "net" else "ip_iface", L(l))
    if l[0] == "r":
        o = ip.obj(st, l)
        if o.kind == "list":
            return ip.with_exact(o.data, st, lambda vs, s: net_of(ip, s, T("tuple", *vs).leaf, strict, kind))
        ip.raise_(st, ip.exc("ValueError"))
        raise Dead()
    return ip.top("network")


@ex("ipaddress.ip_network", "ipaddress.IPv4Network", "ipaddress.IPv6Network")
def x_ip_network(ip, st, a, k):
    s = a[1] if len(a) > 1 else k.get("strict", TRUE)
    if s is not TRUE and s is not FALSE:
        raise Undecided("strict flag")
    v = a[0] if a else k["address"]
    return ip.split(v, st, lambda l, s2: net_of(ip, s2, l, s is TRUE, "net"))


@ex("ipaddress.ip_interface", "ipaddress.IPv4Interface", "ipaddress.IPv6Interface")
def x_ip_interface(ip, st, a, k):
    return ip.split(a[0], st, lambda l, s2: net_of(ip, s2, l, False, "iface"))


def fam_net(f, which):
    def g(ip, st, a, k):
        r = f(ip, st, a, k)
        v4 = theory.v4(r)
        ip.raise_(st, ip.exc("ValueError"), neg(v4) if which == 4 else v4)
        return r
    return g


EXT["ipaddress.IPv4Network"] = fam_net(x_ip_network, 4)
EXT["ipaddress.IPv6Network"] = fam_net(x_ip_network, 6)
EXT["ipaddress.IPv4Interface"] = fam_net(x_ip_interface, 4)
EXT["ipaddress.IPv6Interface"] = fam_net(x_ip_interface, 6)


@ex("ipaddress.summarize_address_range")
def x_summarize(ip, st, a, k):
    f = k.get("first", a[0] if a else None)
    l = k.get("last", a[-1] if a else None)

    def g(ls, s):
        x, y = L(ls[0]), L(ls[1])
        for q in ls:
            if not (q[0] == "t" and tyof(q) == "addr"):
                raise_type(ip, s)
        p, q = concrete(x), concrete(y)
        if p is not None and q is not None:
            try:
                r = list(_ipa.summarize_address_range(p, q))
            except (ValueError, TypeError) as e:
                ip.raise_(s, ip.exc(type(e).__name__))
                raise Dead()
            return ip.new_list(s, [constnet(n) for n in r])
        fails(ip, s, "summarize", "ValueError", x, y)
        return ip.new_seq(s, [(TRUE, T("sumnet", x, y, C(0))), (atom(("summore", x, y)), T("sumnet", x, y, C(1)))])
    return split_all(ip, st, [f, l], g)


def constnet(n):
    return T("net", C(str(n.network_address)), C(n.prefixlen))


@ex("ipaddress.collapse_addresses")
def x_collapse(ip, st, a, k):
    items = ip.seq_items(st, ip.iterate(a[0], st))
    if not items:
        return ip.new_list(st, [])
    known = [concrete(v) if g is TRUE else None for g, v in items]
    if None not in known:
        try:
            return ip.new_list(st, [constnet(n) for n in _ipa.collapse_addresses(known)])
        except (TypeError, AttributeError) as e:
            ip.raise_(st, ip.exc(type(e).__name__))
            raise Dead()
    mixed = some = FALSE
    fams = [(g, mapleaf(v, lambda q: theory.v4(L(q)))) for g, v in items]
    for n, (g, f) in enumerate(fams):
        some = disj(some, g)
        for g2, f2 in fams[:n]:
            mixed = disj(mixed, conj(conj(g, g2), xor(f, f2)))
    if mixed is not FALSE:
        ip.raise_(st, ip.exc("TypeError"), mixed)
    key = T("tuple")
    for g, v in items:
        add = mapleaf(v, lambda q: mapleaf(key, lambda l: T("tuple", *sorted(l[2:] + (L(q),), key=lambda n: n.id))))
        key = ite(g, add, key)

    def net(k, n):
        return T("colnet", L(k), C(n)) if len(k) > 2 else NONE

    more = mapleaf(key, lambda k: atom(("colmore", L(k))) if len(k) > 2 else FALSE)
    return ip.new_seq(st, [(some, mapleaf(key, lambda k: net(k, 0))), (more, mapleaf(key, lambda k: net(k, 1)))])



@ex("fnmatch.fnmatchcase", "fnmatch.fnmatch")
def x_fnmatch(ip, st, a, k):
    n = a[0] if a else k["name"]
    p = a[1] if len(a) > 1 else k["pat"]
    return split_all(ip, st, [n, p], lambda ls, s: atom(("fnmatch", L(ls[0]), L(ls[1]))))


def chained(ip, st, srcs):
    def runner(s, each):
        for x in srcs:
            ip.each(x, s, each)
        return NONE
    return ip.mkgen(st, runner)


@ex("itertools.chain")
def x_chain(ip, st, a, k):
    return chained(ip, st, a)


@ex("itertools.chain.from_iterable")
def x_chainfi(ip, st, a, k):
    def runner(s, each):
        ip.each(a[0], s, lambda x, s2: ip.each(x, s2, each))
        return NONE
    return ip.mkgen(st, runner)


@ex("itertools.filterfalse")
def x_filterfalse(ip, st, a, k):
    def runner(s, each):
        def cb(v, s2):
            c = ip.truth(v if a[0] is NONE else ip.call(a[0], [v], {}, s2), s2)
            ip.branch(c, s2, lambda s3: None, lambda s3: each(v, s3))
        ip.each(a[1], s, cb)
        return NONE
    return ip.mkgen(st, runner)


@ex("itertools.starmap")
def x_starmap(ip, st, a, k):
    def runner(s, each):
        def cb(v, s2):
            items = ip.seq_items(s2, ip.iterate(v, s2))
            ip.with_exact(items, s2, lambda vs, s3: each(ip.call(a[0], list(vs), {}, s3), s3))
        ip.each(a[1], s, cb)
        return NONE
    return ip.mkgen(st, runner)


@ex("itertools.product")
def x_product(ip, st, a, k):
    if k:
        raise Undecided("product with repeat")
    cols = [tuple(ip.iterate(x, st)) for x in a]
    rows = [(TRUE, ())]
    for c in cols:
        rows = [(conj(g, gg), r + (v,)) for g, r in rows for gg, v in c]
    return one_shot(ip, st, [(g, T("tuple", *r)) for g, r in rows])


@ex("contextlib.suppress")
def x_suppress(ip, st, a, k):
    return T("suppress", *a)


@ex("contextlib.nullcontext")
def x_nullcontext(ip, st, a, k):
    return T("nullcontext", a[0] if a else k.get("enter_result", NONE))


@ex("contextlib.contextmanager")
def x_contextmanager(ip, st, a, k):
    return L(("pyfn", lambda ip2, s, aa, kk: L(("t", "gencm", a[0], T("tuple", *aa), tuple(sorted(kk.items()))))))


@ex("functools.reduce")
def x_reduce(ip, st, a, k):
    items = ip.seq_items(st, ip.iterate(a[1], st))
    if len(a) > 2:
        r = a[2]
    else:
        if not items or items[0][0] is not TRUE:
            raise Undecided("reduce")
        r = items[0][1]
        items = items[1:]
    for g, v in items:
        cur = r
        r = ip.branch(g, st, lambda s: ip.call(a[0], [cur, v], {}, s), lambda s: cur)
    return r


@bi("dict.fromkeys")
def b_fromkeys(ip, st, a, k):
    d = ip.new_dict(st, [])
    v = a[1] if len(a) > 1 else NONE
    ip.each(a[0], st, lambda x, s: ip.dict_set(s, d.leaf, x, v))
    return d


@bi("divmod")
def b_divmod(ip, st, a, k):
    return T("tuple", ip.binop(_ast.FloorDiv(), a[0], a[1], st), ip.binop(_ast.Mod(), a[0], a[1], st))


@ex("functools.partial")
def x_partial(ip, st, a, k):
    return L(("partial", a[0], tuple(a[1:]), tuple(sorted(k.items()))))


@ex("functools.lru_cache", "functools.cache")
def x_cache(ip, st, a, k):
    def memo(s, f):
        known = ip.new_dict(s, []).leaf

        def call(ip2, s2, aa, kk):
            key = T("tuple", *aa, *[x for n in sorted(kk) for x in (C(n), kk[n])])
            p, v = ip2.dict_find(s2, known, key)
            p = restrict(p, s2.pc)

            def new(s3):
                r = ip2.call(f, aa, kk, s3)
                ip2.dict_set(s3, known, key, r)
                return r
            return ip2.branch(p, s2, lambda s3: v, new)
        return L(("pyfn", call))
    if a and not (const(a[0]) or k):
        return memo(st, a[0])
    return L(("pyfn", lambda ip2, s, aa, kk: memo(s, aa[0])))


@ex("functools.wraps")
def x_wraps(ip, st, a, k):
    return L(("pyfn", lambda ip2, s, aa, kk: aa[0]))


@ex("collections.namedtuple")
def x_namedtuple(ip, st, a, k):
    f = k.get("field_names", a[1] if len(a) > 1 else None)
    if const(f):
        names = f.leaf[2].replace(",", " ").split() if isinstance(f.leaf[2], str) else list(f.leaf[2])
    else:
        names = [v.leaf[2] for _, v in ip.iterate(f, st)]
    return L(("partial", L(("ext", "analysis.namedtuple")), (a[0] if a else k["typename"], T("tuple", *[C(n) for n in names])), ()))


@ex("analysis.namedtuple")
def x_mknt(ip, st, a, k):
    names = [x.leaf[2] for x in a[1].leaf[2:]]
    vals = list(a[2:])
    for n in names[len(vals):]:
        if n not in k:
            raise_type(ip, st)
        vals.append(k[n])
    if len(vals) != len(names):
        raise_type(ip, st)
    return T("ntuple", a[0], a[1], *vals)


@ex("collections.defaultdict")
def x_defaultdict(ip, st, a, k):
    m = {"factory": a[0]} if a and a[0] is not NONE else None
    d = ip.alloc(st, "dict", (), meta=m)
    if len(a) > 1 or k:
        dict_method(ip, st, d.leaf, ip.obj(st, d.leaf), "update", a[1:], k)
    return d


@ex("collections.OrderedDict")
def x_odict(ip, st, a, k):
    return b_dict(ip, st, a, k)


@ex("collections.Counter", "collections.deque")
def x_coll(ip, st, a, k):
    raise Undecided("collections type")


@ex("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "time.time")
def x_now(ip, st, a, k):
    return T("now")


DT = ("year", "month", "day", "hour", "minute", "second", "microsecond")


def kwterm(op, names):
    def f(ip, st, a, k):
        d = dict(zip(names, a))
        for n, v in k.items():
            if n not in names or n in d:
                raise_type(ip, st, n)
            d[n] = v
        if op == "datetime":
            for n in names[:3]:
                if n not in d:
                    raise_type(ip, st, "datetime needs " + n)
        vals = {n: d[n].leaf[2] for n in names if n in d and d[n].leaf is not None and d[n].leaf[0] == "c"}
        if len(vals) == len([n for n in names if n in d]):
            try:
                getattr(_dt, op)(**vals)
            except (ValueError, TypeError) as e:
                ip.raise_(st, ip.exc(type(e).__name__))
                raise Dead()
        else:
            fails(ip, st, op, "ValueError", *[T("tuple", C(n), d[n]) for n in names if n in d])
        return T(op, *[T("tuple", C(n), d[n]) for n in names if n in d])
    return f


EXT["datetime.datetime"] = kwterm("datetime", DT)
EXT["datetime.time"] = kwterm("time", DT[3:])
EXT["datetime.date"] = kwterm("date", DT[:3])


@ex("datetime.datetime.fromtimestamp", "datetime.datetime.utcfromtimestamp")
def x_fromts(ip, st, a, k):
    return T("fromtimestamp", a[0])


@ex("html.unescape", "html.parser.unescape")
def x_unescape(ip, st, a, k):
    def f(l, s):
        if l[0] == "c":
            if isinstance(l[2], str):
                return C(html.unescape(l[2]))
            raise_type(ip, s)
        if l[0] == "t" and tyof(l) not in ("str", None):
            raise_type(ip, s)
        parts = list(l[2:]) if l[0] == "t" and l[1] == "fmt" else [L(l)]
        out = []
        for p in parts:
            q = p.leaf
            if q[0] == "c" and re.fullmatch("([^&]|&[a-zA-Z0-9#]+;)*", q[2]):
                out.append(C(html.unescape(q[2])))
            elif q[0] == "t" and rx.items_of(q) is not None and not any("&" in cs for cs, lo, hi in rx.items_of(q)[0]):
                out.append(p)
            else:
                return T("unescape", L(l))
        return mkfmt(ip, s, out)
    return ip.split(a[0], st, f)


@ex("socket.getservbyname")
def x_getserv(ip, st, a, k):
    fails(ip, st, "getservbyname", "OSError", a[0])
    return T("getserv", a[0])


@ex("urllib.request.urlopen")
def x_urlopen(ip, st, a, k):
    note_effect(ip, st, "urlopen", a[:1])
    if ip.in_try and a[0] not in TABLES:
        fails(ip, st, "urlopen", "HTTPError", a[0])
    return T("urlopen", a[0])


FILES = {}          # path -> (text, starts with a byte order mark)
TABLES = {}         # what is found at an address


@ex("tatsu.ast.AST")
def x_ast(ip, st, a, k):
    d = ip.alloc(st, "ast", ())
    for x in a:
        dict_method(ip, st, d.leaf, ip.obj(st, d.leaf), "update", [x], {})
    for n, v in k.items():
        ip.dict_set(st, d.leaf, C(n), v)
    return d


@ex("copy.copy", "copy.deepcopy")
def x_copy(ip, st, a, k):
    def f(l, s):
        if l[0] == "r":
            o = ip.obj(s, l)
            return ip.alloc(s, o.kind, dict(o.data) if isinstance(o.data, dict) else o.data, o.cls, o.meta)
        return L(l)
    return ip.split(a[0], st, f)


@ex("re.compile")
def x_recompile(ip, st, a, k):
    return T("regex", *a)


@ex("re.match", "re.fullmatch", "re.search")
def x_rematch(ip, st, a, k):
    p, n = a[0], a[1]
    if p.var == INF and p.leaf[0] == "t" and p.leaf[1] == "translate":
        return atom(("fnmatch", n, p.leaf[2]))
    return ip.top("re.match")


def literals(pattern):
    """the characters a pattern can match, None: not known"""
    import re._parser as sre
    out = set()

    def walk(x):
        if isinstance(x, sre.SubPattern):
            return all(walk(i) for i in x)
        if isinstance(x, tuple) and x and str(x[0]) == "LITERAL":
            out.add(chr(x[1]))
            return True
        if isinstance(x, tuple) and x and str(x[0]) in ("MAX_REPEAT", "MIN_REPEAT"):
            return walk(x[1][2])
        if isinstance(x, tuple) and x and str(x[0]) == "BRANCH":
            return all(walk(i) for i in x[1][1])
        if isinstance(x, tuple) and x and str(x[0]) == "SUBPATTERN":
            return walk(x[1][3])
        if isinstance(x, tuple) and x and str(x[0]) == "IN":
            return all(str(i[0]) == "LITERAL" and walk(i) for i in x[1])
        return isinstance(x, tuple) and x and str(x[0]) == "AT" and str(x[1]) in ("AT_BEGINNING_STRING", "AT_END_STRING")
    try:
        return "".join(out) if walk(sre.parse(pattern)) else None
    except Exception:
        return None


def resub(ip, st, pattern, repl, v):
    def f(ls, s):
        p, r, l = ls
        if all(x[0] == "c" for x in ls):
            return C(_re.sub(p[2], r[2], l[2]))
        if p[0] == "c" and r[0] == "c" and isinstance(r[2], str):
            chars = literals(p[2])
            q = private(l, chars) if chars is not None and not _re.match(p[2], "") else None
            if q is not None:
                return public(_re.sub(p[2], r[2], q[0]), q[1])
        return ip.top("re.sub")
    return split_all(ip, st, [pattern, repl, v], f)


@ex("re.sub")
def x_resub(ip, st, a, k):
    if len(a) != 3 or k:
        return ip.top("re.sub")
    return resub(ip, st, *a)


@ex("fnmatch.translate")
def x_translate(ip, st, a, k):
    return T("translate", a[0])


@ex("analysis.missing")
def x_missing(ip, st, a, k):
    raise Undecided("call of missing value")


@ex("math.log", "math.floor", "math.ceil", "math.pow", "math.log2")
def x_math(ip, st, a, k):
    return ip.top("math")


@ex("tatsu.infos.ParserConfig.new")
def x_cfgnew(ip, st, a, k):
    return peg.config_new(ip, st, a, k)


@ex("tatsu.infos.ParserConfig")
def x_cfg(ip, st, a, k):
    return peg.config_init(ip, st, a, k)


@ex("xml.etree.ElementTree.fromstring", "xml.etree.ElementTree.XML")
def x_xmlfromstring(ip, st, a, k):
    def f(l, s):
        parts = [p.leaf for p in l[2:]] if l[0] == "t" and l[1] == "fmt" else [l]
        t, slots = "", []
        for p in parts:
            if p[0] == "c" and isinstance(p[2], str):
                t += p[2]
            elif p[0] == "t" and rx.items_of(p) is not None:
                if any(frozenset("<&>") & cs for cs, lo, hi in rx.items_of(p)[0]):
                    raise Undecided("XML with an unknown part")
                t += chr(0xE000 + len(slots))
                slots.append(p)
            else:
                return ip.top("XML text")
        try:
            root = ElementTree.fromstring(t)
        except ElementTree.ParseError:
            ip.raise_(s, ip.exc("ParseError"))
            raise Dead()
        ip.texts.append(("", True))
        return xml_build(ip, s, root, slots)
    return ip.split(a[0], st, f)


def xml_text(ip, st, t, slots):
    if not t:
        return NONE if t is None else C("")
    out = []
    for c in t:
        n = ord(c) - 0xE000
        out.append(L(slots[n]) if 0 <= n < len(slots) else C(c))
    return mkfmt(ip, st, out)


def xml_build(ip, st, e, slots):
    kids = tuple((TRUE, xml_build(ip, st, c, slots)) for c in e)
    if any(0xE000 <= ord(c) < 0xE000 + len(slots) for c in e.tag):
        raise Undecided("XML with an unknown tag")
    at = ip.new_dict(st, [(C(k), xml_text(ip, st, v, slots)) for k, v in e.attrib.items()])
    return ip.alloc(st, "xml", {"tag": C(e.tag), "text": xml_text(ip, st, e.text, slots), "tail": xml_text(ip, st, e.tail, slots),
                                "attrib": at, "children": kids})
