"""Facts that tie atoms together (mutual exclusion, order, classes, address algebra)."""
from .dd import *
from .core import tyof, tag, ClassInfo, UNSET
from . import rx


# ------------------------------------------------------------------ bit vectors
def as_bits(n):
    if n.var != INF:
        return None
    l = n.leaf
    if l[0] == "c":
        if l[2] is True or l[2] is False or not isinstance(l[2], int):
            return None
        if l[2] == 0:
            return FALSE
        if l[2] == -1:
            return TRUE
        return None
    if l[0] == "t":
        if l[1] == "bits":
            return l[2]
        if l[1] == "int":
            a = l[2].leaf if l[2].var == INF else None
            if a and a[0] == "t":
                if a[1] == "netaddr":
                    return conj(atom(("bit", n)), atom(("bit", T("int", T("netmask", a[2])))))
                if a[1] == "hostmask":
                    return neg(atom(("bit", T("int", T("netmask", a[2])))))
                if a[1] == "bcast":
                    m = atom(("bit", T("int", T("netmask", a[2]))))
                    return disj(conj(atom(("bit", T("int", T("netaddr", a[2])))), m), neg(m))
            return atom(("bit", n))
        if tyof(l) == "int":
            return atom(("bit", n))
    return None


def from_bits(b):
    if b is FALSE:
        return C(0)
    if b is TRUE:
        return C(-1)
    if b.hi is TRUE and b.lo is FALSE:
        return atoms[b.var][1]
    return T("bits", b)


def zero(b):
    if b is FALSE:
        return TRUE
    if b is TRUE:
        return FALSE
    x = _hostmask_of(b)
    if x is not None:
        return single_net(x)
    return atom(("zero", b))


def _hostmask_of(b):
    """the network whose host mask b is, if it is one"""
    if b.var == INF or b.lo is not TRUE or b.hi is not FALSE or atoms[b.var][0] != "bit":
        return None
    n = atoms[b.var][1].leaf
    if n[1] == "int" and n[2].var == INF and n[2].leaf[0] == "t" and n[2].leaf[1] == "netmask":
        return n[2].leaf[2]
    return None


def single_net(x):
    """the network x is a single address"""
    p = ("t", "prefixlen", x)
    return ite(v4(x), ge(p, 32), ge(p, 128))


# ------------------------------------------------------------------ equality
def intlike(l):
    return l[0] == "t" and (l[1] in ("bits",) or (l[1] == "int" and l[2].var == INF and tyof(l[2].leaf) in ("addr",)))


def eq_nodes(ip, st, a, b):
    return mapleaf(a, lambda la: mapleaf(b, lambda lb: eq_leaf(ip, st, la, lb)))


def typ(l):
    t = tyof(l)
    if t is None and l[0] == "t" and isinstance(tag(l, "cls"), (ClassInfo, tuple)):
        return "object"
    return t


COMPAT = {("int", "bool"), ("bool", "int"), ("int", "float"), ("float", "int")}


def eq_leaf(ip, st, la, lb):
    if la == lb:
        return TRUE
    if la[0] == "c" and lb[0] == "c":
        return C(bool(la[2] == lb[2]))
    if la[0] == "top" or lb[0] == "top":
        x = la if la[0] == "top" else lb
        return atom(("top", "eq") + x[1:])
    if la[0] != "t" and lb[0] != "t":
        return FALSE
    if la[0] != "t":
        la, lb = lb, la
    # la is a term
    if lb[0] == "r":
        return FALSE
    if lb[0] in ("class", "ext", "func", "mod", "bound"):
        if la[1] == "type":
            return atom(("typeis", la[2], L(lb)))
        return FALSE
    ta, tb = typ(la), typ(lb)
    if lb[0] == "c":
        v = lb[2]
        if v is None:
            if ta is not None or tag(la, "nonnull") or tag(la, "truthy"):
                return FALSE
            return atom(("eq", L(la), L(lb)))
        if la[1] == "tuple" or la[1] == "ntuple":
            vs = la[2:] if la[1] == "tuple" else la[4:]
            if not isinstance(v, tuple) or len(v) != len(vs):
                return FALSE
            r = TRUE
            for x, y in zip(vs, v):
                r = conj(r, eq_nodes(ip, st, x, C(y)))
            return r
        if la[1] == "version":
            if v == 4:
                return v4(la[2])
            if v == 6:
                return neg(v4(la[2]))
            return FALSE
        if intlike(la) and isinstance(v, int):
            x = as_bits(L(lb))
            if x is not None:
                return zero(xor(as_bits(L(la)), x))
        if isinstance(v, str):
            sh = rx.items_of(la)
            if sh is not None and not rx.member(sh[0], v):
                return FALSE
        if la[1] == "idx" and isinstance(v, str) and len(v) == 1 and la[2].var == INF and la[3] in (0, -1):
            sh = rx.items_of(la[2].leaf)
            if sh is not None and sh[0]:
                cs, lo, hi = sh[0][la[3]]
                if lo:
                    if v not in cs:
                        return FALSE
                    if cs == {v}:
                        return TRUE
        if la[1] == "idx" and isinstance(v, str) and len(v) == 1:
            if la[3] == 0:
                return atom(("startswith", la[2], v))
            if la[3] == -1:
                return atom(("endswith", la[2], v))
        if ta is not None and ta != tb and (ta, tb) not in COMPAT:
            return FALSE
        vals = tag(la, "values")
        if vals is not None and v not in vals:
            return FALSE
        if isinstance(v, str) and tag(la, "word") and (v == "" or not wordlike(v)):
            return FALSE
        if v == "" and tag(la, "truthy"):
            return FALSE
        if tag(la, "numeric") and isinstance(v, str) and not v.isdigit():
            return FALSE
        if la[1] == "fmt" and isinstance(v, str):
            r = fmt_eq_const(la, v)
            if r is not None:
                return r
        if ta == "int" and type(v) is int and not la[1] in ("int", "bits"):
            return conj(ge(la, v), ltc(la, v + 1))
        return atom(("eq", L(la), L(lb)))
    # two terms
    if ta is not None and tb is not None and ta != tb:
        return FALSE
    if la[1] == "tuple" and lb[1] == "tuple":
        if len(la) != len(lb):
            return FALSE
        r = TRUE
        for x, y in zip(la[2:], lb[2:]):
            r = conj(r, eq_nodes(ip, st, x, y))
        return r
    if {la[1], lb[1]} == {"netaddr", "bcast"} and la[2] is lb[2]:
        return single_net(la[2])
    if la[1] == "version" and lb[1] == "version":
        return neg(xor(v4(la[2]), v4(lb[2])))
    if intlike(la) and intlike(lb):
        return zero(xor(as_bits(L(la)), as_bits(L(lb))))
    if ta == tb == "object" and isinstance(tag(la, "cls"), ClassInfo) and isinstance(tag(lb, "cls"), ClassInfo):
        return FALSE
    if (ta == "object") != (tb == "object") and ta is not None and tb is not None:
        return FALSE
    a, b = L(la), L(lb)
    if a.id > b.id:
        a, b = b, a
    return atom(("eq", a, b))


def wordlike(s):
    return not any(c in s for c in " \t\n/:,-()")


def fmt_eq_const(l, v):
    """'<a>.<b>' == const : decide False when a constant fragment is missing"""
    for p in l[2:]:
        if p.var == INF and p.leaf[0] == "c" and isinstance(p.leaf[2], str) and p.leaf[2] not in v:
            return FALSE
    return None


def v4(x):
    """the address / network / interface x is IPv4"""
    l = x.leaf if x.var == INF else None
    if l is None:
        return mapleaf(x, lambda q: v4(L(q)))
    f = tag(l, "fam")
    if f is not None:
        return C(f == 4)
    if l[0] == "t":
        if l[1] in ("netaddr", "netmask", "hostmask", "bcast", "ifnet", "iface_ip"):
            return v4(l[2])
        if l[1] == "net" and l[2].var == INF:
            return v4b(l[2])
        if l[1] in ("ip_address", "net1", "ip_iface"):
            return v4b(l[2])
        if l[1] == "colnet":
            return v4(l[2].leaf[2])
    return atom(("v4", x))


def v4b(x):
    """family of something by the thing it was built from"""
    if x.var != INF:
        return atom(("v4", x))
    l = x.leaf
    f = tag(l, "fam")
    if f is not None:
        return C(f == 4)
    if l[0] == "t" and tyof(l) in ("addr", "net", "iface"):
        return v4(x)
    if l[0] == "c" and isinstance(l[2], str):
        return C(":" not in l[2])
    return atom(("v4", x))


# ------------------------------------------------------------------ order
def ltc(l, c):
    """integer term < constant"""
    if l[0] == "c":
        return C(l[2] < c)
    if l[1] == "numaddrs":
        # 2 ** (max_prefixlen - prefixlen)
        if c <= 1:
            return FALSE
        k = (c - 1).bit_length() - 1
        p = ("t", "prefixlen", l[2])
        return ite(v4(l[2]), ge(p, 32 - k), ge(p, 128 - k))
    if l[1] == "prefixlen":
        if c <= 0:
            return FALSE
        if c > 128:
            return TRUE
        if c > 32:
            a = atom(("ltc", L(l), c))
            return ite(v4(l[2]), TRUE, a)
    if l[1] == "intlen" and c <= 0:
        return FALSE
    m = tag(l, "min")
    if m is None and l[1] == "int" and l[2].var == INF:
        m = tag(l[2].leaf, "min")
    if m is not None and c <= m:
        return FALSE
    b = intbounds(l)
    if b:
        if c <= b[0]:
            return FALSE
        if c > b[1]:
            return TRUE
    return atom(("ltc", L(l), c))


def intbounds(l):
    if l[0] == "t" and l[1] == "int" and l[2].var == INF:
        sh = rx.items_of(l[2].leaf)
        return rx.bounds(sh[0]) if sh else None
    return None


def ge(l, c):
    return neg(ltc(l, c))


def order(ip, st, name, la, lb):
    if la[0] == "c" and lb[0] == "c":
        try:
            return C(bool(getattr(__import__("operator"), name)(la[2], lb[2])))
        except TypeError:
            return None
    if la[0] == "top" or lb[0] == "top":
        x = la if la[0] == "top" else lb
        return atom(("top", name) + x[1:])
    ta, tb = tyof(la), tyof(lb)
    if la[0] == "t" and la[1] == "tuple" or lb[0] == "t" and lb[1] == "tuple":
        xs = la[2:] if la[0] == "t" else [C(x) for x in la[2]]
        ys = lb[2:] if lb[0] == "t" else [C(x) for x in lb[2]]
        lt, eqp = FALSE, TRUE
        for x, y in zip(xs, ys):
            e = eq_nodes(ip, st, x, y)
            l1 = mapleaf(x, lambda p: mapleaf(y, lambda q: order(ip, st, "__lt__", p, q) or FALSE))
            lt = disj(lt, conj(eqp, conj(neg(e), l1)))
            eqp = conj(eqp, e)
        if len(xs) < len(ys):
            lt = disj(lt, eqp)
        eqall = eqp if len(xs) == len(ys) else FALSE
        gtr = conj(neg(lt), neg(eqall))
        return {"__lt__": lt, "__le__": disj(lt, eqall), "__gt__": gtr, "__ge__": neg(lt)}[name]
    if ta == "int" and lb[0] == "c" and isinstance(lb[2], int):
        c = lb[2]
        return {"__lt__": lambda: ltc(la, c), "__le__": lambda: ltc(la, c + 1), "__gt__": lambda: ge(la, c + 1),
                "__ge__": lambda: ge(la, c)}[name]()
    if tb == "int" and la[0] == "c" and isinstance(la[2], int):
        c = la[2]
        return {"__lt__": lambda: ge(lb, c + 1), "__le__": lambda: ge(lb, c), "__gt__": lambda: ltc(lb, c),
                "__ge__": lambda: ltc(lb, c + 1)}[name]()
    if ta is not None and tb is not None and ta != tb and not {ta, tb} <= {"int", "float", "bool"}:
        return None
    if la[0] == "c" and la[2] is None or lb[0] == "c" and lb[2] is None:
        return None
    a, b = L(la), L(lb)
    if a is b:
        return C(name in ("__le__", "__ge__"))
    x, y = intbounds(la), intbounds(lb)
    if x and y:
        if x[1] < y[0]:
            return C(name in ("__lt__", "__le__"))
        if x[0] > y[1]:
            return C(name in ("__gt__", "__ge__"))
    return {"__lt__": lambda: atom(("lt", a, b)), "__gt__": lambda: atom(("lt", b, a)),
            "__le__": lambda: neg(atom(("lt", b, a))), "__ge__": lambda: neg(atom(("lt", a, b)))}[name]()


# ------------------------------------------------------------------ networks
def net_contains(net, addr):
    if tyof(addr.leaf) not in ("addr", None):
        return FALSE
    return atom(("netin", net, addr))


def subnet(a, b):
    if a is b:
        return TRUE
    return atom(("subnet", a, b))


def overlaps(a, b):
    return disj(subnet(a, b), subnet(b, a))


# ------------------------------------------------------------------ axioms
_ax = {}
_sat = {}


def imp(a, b):
    return disj(neg(a), b)


def iff(a, b):
    return neg(xor(a, b))


def A(i):
    return mk(i, TRUE, FALSE)


def axioms(sup):
    r = _ax.get(sup)
    if r is None:
        r = TRUE
        ix = sorted(sup)
        for p, i in enumerate(ix):
            for j in ix[p + 1:]:
                r = conj(r, pair(i, j))
        for i in ix:
            r = conj(r, single(i))
        _ax[sup] = r
    return r


_pair = {}


def single(i):
    a = atoms[i]
    if a[0] == "netin":
        return imp(A(i), iff(v4(a[1]), v4(a[2])))
    if a[0] == "subnet":
        return imp(A(i), iff(v4(a[1]), v4(a[2])))
    if a[0] == "eq" and tyof(a[1].leaf) == "addr" == tyof(a[2].leaf):
        return imp(A(i), iff(v4(a[1]), v4(a[2])))
    if a[0] == "eq" and tyof(a[1].leaf) == "net" == tyof(a[2].leaf):
        return imp(A(i), iff(v4(a[1]), v4(a[2])))
    return TRUE


def pair(i, j):
    r = _pair.get((i, j))
    if r is None:
        r = conj(pair1(i, j), pair1(j, i))
        _pair[(i, j)] = r
    return r


def const_of(a):
    for k in (1, 2):
        if a[k].leaf[0] == "c":
            return a[3 - k], a[k].leaf[2]
    return None, None


class NoValue(Exception):
    pass


def value_if(n, t, c):
    """the text n (built from t) is when t is the text c"""
    if n is t:
        return c
    if not isinstance(n, Node):
        return n
    if n.var != INF:
        raise NoValue
    l = n.leaf
    if l[0] == "c":
        return l[2]
    if l[0] == "t" and l[1] in ("sub", "idx", "part", "strm"):
        v = [value_if(x, t, c) for x in l[2:]]
        try:
            if l[1] == "sub":
                return v[0][slice(*v[1:])]
            if l[1] == "idx":
                return v[0][v[1]]
            if l[1] == "strm":
                return getattr(v[1], v[0])(*v[2:])
            if isinstance(v[1], str) and v[1] and v[0].count(v[1]) == 1:
                return v[0].split(v[1])[v[2]]
        except Exception:
            pass
    raise NoValue


def atom_if(b, t, c):
    """truth of the atom b when the text t is c; None: not known"""
    try:
        if b[0] == "eq":
            return value_if(b[1], t, c) == value_if(b[2], t, c)
        if b[0] in ("startswith", "endswith"):
            return getattr(value_if(b[1], t, c), b[0])(value_if(b[2], t, c))
        if b[0] == "instr":
            return value_if(b[1], t, c) in value_if(b[2], t, c)
        if b[0] == "true":
            return bool(value_if(b[1], t, c))
        if b[0] == "strp":
            return getattr(value_if(b[2], t, c), b[1])()
        if b[0] == "fails" and b[1] == "int" and len(b) == 3:
            v = value_if(b[2], t, c)
            try:
                int(v)
            except ValueError:
                return True
            return False
    except (NoValue, TypeError, AttributeError):
        pass
    return None


def pair1(i, j):
    a, b = atoms[i], atoms[j]
    x, y = A(i), A(j)
    if a[0] == "eq" and b[0] in ("eq", "startswith", "endswith", "instr", "true", "strp", "fails"):
        t, c = const_of(a)
        if t is not None and isinstance(c, str):
            v = atom_if(b, t, c)
            if v is not None:
                return imp(x, y if v else neg(y))
    if a[0] == "eq":
        t, c = const_of(a)
        if t is not None:
            if b[0] == "eq":
                t2, c2 = const_of(b)
                if t2 is t:
                    return neg(conj(x, y))
            if b[0] == "true" and b[1] is t:
                return imp(x, y if c else neg(y))
            if b[0] == "ltc" and b[1] is t and isinstance(c, int):
                return imp(x, y if c < b[2] else neg(y))
            if b[0] in ("startswith", "endswith") and b[1] is t and isinstance(c, str):
                return imp(x, y if getattr(c, b[0])(b[2]) else neg(y))
            if b[0] == "isinst" and b[1] is t:
                return imp(x, neg(y)) if b[2] not in [k.__name__ for k in type(c).__mro__] else imp(x, y)
            if b[0] == "instr" and b[2] is t and b[1].leaf[0] == "c" and isinstance(c, str):
                return imp(x, y if b[1].leaf[2] in c else neg(y))
        elif b[0] == "zero":
            d = xor(atom(("bit", T("int", a[1]))), atom(("bit", T("int", a[2]))))
            if b[1] is d:
                return conj(imp(x, y), imp(conj(y, iff(v4(a[1]), v4(a[2]))), x))
            if conj(b[1], neg(d)) is FALSE:
                return imp(x, y)
        elif b[0] == "lt" and {a[1], a[2]} == {b[1], b[2]}:
            return neg(conj(x, y))
        elif b[0] == "eq" and t is None:
            pass
    if a[0] == "true" and b[0] in ("startswith", "endswith") and a[1] is b[1]:
        return imp(y, x)
    if a[0] == "eq" and b[0] in ("startswith", "endswith") and len(b[2]) == 1 and \
            {a[1], a[2]} == {T("idx", b[1], 0), T("idx", b[1], -1)}:
        # first character == last character
        other = atom(("endswith" if b[0] == "startswith" else "startswith", b[1], b[2]))
        return imp(conj(x, y), other)
    if a[0] == "startswith" and b[0] == "endswith" and a[1] is b[1] and len(a[2]) == len(b[2]) == 1 and a[2] == b[2]:
        e = atom(("eq",) + tuple(sorted((T("idx", a[1], 0), T("idx", a[1], -1)), key=lambda n: n.id)))
        return imp(conj(x, y), e)
    if a[0] == "startswith" and b[0] == "eq":
        t, c = const_of(b)
        if t is not None and isinstance(c, str) and t is T("sub", a[1], C(len(a[2])), NONE, NONE):
            # a beginning and the rest make the whole
            e = atom(("eq",) + tuple(sorted((a[1], C(a[2] + c)), key=lambda n: n.id)))
            return imp(conj(x, y), e)
    if a[0] == "startswith" and b[0] == "startswith" and a[1] is b[1]:
        if not (a[2].startswith(b[2]) or b[2].startswith(a[2])):
            return neg(conj(x, y))
        if a[2].startswith(b[2]):
            return imp(x, y)
    if a[0] == "endswith" and b[0] == "endswith" and a[1] is b[1]:
        if a[2].endswith(b[2]):
            return imp(x, y)
        if not b[2].endswith(a[2]):
            return neg(conj(x, y))
    if a[0] == "isinst" and b[0] == "isinst" and a[1] is b[1]:
        return class_rel(a[2], b[2], x, y)
    if a[0] == "isinst" and b[0] == "true" and a[1] is b[1] and a[2] not in ("str", "int", "list", "dict", "tuple", "set"):
        return imp(x, y)
    if a[0] == "ltc" and b[0] == "ltc" and a[1] is b[1] and a[2] <= b[2]:
        return imp(x, y)
    if a[0] == "lt" and b[0] == "lt" and a[1] is b[2] and a[2] is b[1]:
        return neg(conj(x, y))
    if a[0] == "zero" and b[0] == "zero":
        if conj(a[1], neg(b[1])) is FALSE:
            return imp(y, x)
    if a[0] == "subnet":
        if b[0] == "netin" and b[1] is a[2] and b[2] is T("netaddr", a[1]):
            # a1 within a2  ->  its network address lies in a2 ; conversely one contains the other
            return conj(imp(x, y), imp(y, disj(x, subnet(a[2], a[1]))))
        if b[0] == "subnet" and a[1] is b[2] and a[2] is b[1]:
            return TRUE
    if a[0] == "netin" and b[0] == "zero":
        n, ad = a[1], a[2]
        d = conj(xor(atom(("bit", T("int", T("netaddr", n)))), atom(("bit", T("int", ad)))),
                 atom(("bit", T("int", T("netmask", n)))))
        if b[1] is d:
            return conj(imp(x, y), imp(conj(y, iff(v4(n), v4(ad))), x))
    return TRUE


CLASSES = {}    # name -> mro names, filled by the driver


def class_rel(p, q, x, y):
    mp, mq = CLASSES.get(p), CLASSES.get(q)
    r = TRUE
    if mp and q in mp:
        r = conj(r, imp(x, y))
    if mq and p in mq:
        r = conj(r, imp(y, x))
    if mp and mq and q not in mp and p not in mq:
        # disjoint unless some class derives from both
        if not any(p in m and q in m for m in CLASSES.values()):
            r = conj(r, neg(conj(x, y)))
    return r


def sat(pc):
    r = _sat.get(pc.id)
    if r is None:
        if pc is FALSE:
            r = False
        elif pc is TRUE:
            r = True
        else:
            sup = support(pc)
            for _ in range(3):
                ax = axioms(sup)
                s2 = sup | support(ax)
                if s2 == sup:
                    break
                sup = s2
            r = conj(pc, ax) is not FALSE
        _sat[pc.id] = r
    return r


def under_theory(pc):
    sup = support(pc)
    for _ in range(3):
        ax = axioms(sup)
        s2 = sup | support(ax)
        if s2 == sup:
            break
        sup = s2
    return conj(pc, ax)
