"""Multi-terminal decision diagrams: the abstract values of the analysis.

A value is a DAG whose inner nodes test *atoms* (uninterpreted predicates over
the inputs) and whose leaves are abstract constants, heap references or terms.
All nodes are interned, so equal functions are the same object.
"""


class Node:
    __slots__ = ("var", "hi", "lo", "leaf", "id", "_sup")

    def __repr__(self):
        return show(self)


_leaf, _node, _memo = {}, {}, {}
atoms = []          # index -> atom tuple
_atom_ix = {}
_count = [0]


def _new(var, hi, lo, leaf):
    n = Node()
    n.var, n.hi, n.lo, n.leaf = var, hi, lo, leaf
    _count[0] += 1
    n.id = _count[0]
    n._sup = None
    return n


INF = 1 << 60


def L(leaf):
    n = _leaf.get(leaf)
    if n is None:
        n = _leaf[leaf] = _new(INF, None, None, leaf)
    return n


def C(v):
    return L(("c", type(v), v))


TRUE, FALSE, NONE = C(True), C(False), C(None)


def T(op, *args):
    return L(("t", op) + args)


def R(oid):
    return L(("r", oid))


def mk(var, hi, lo):
    if hi is lo:
        return hi
    k = (var, hi.id, lo.id)
    n = _node.get(k)
    if n is None:
        n = _node[k] = _new(var, hi, lo, None)
    return n


def atom(a):
    """boolean diagram of one atom"""
    i = _atom_ix.get(a)
    if i is None:
        i = _atom_ix[a] = len(atoms)
        atoms.append(a)
    return mk(i, TRUE, FALSE)


def cof(n, v):
    return (n.hi, n.lo) if n.var == v else (n, n)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = ("i", c.id, a.id, b.id)
    r = _memo.get(k)
    if r is None:
        v = min(c.var, a.var, b.var)
        if v == INF:
            raise TypeError("condition is not boolean: %r" % (c.leaf,))
        c1, c0 = cof(c, v)
        a1, a0 = cof(a, v)
        b1, b0 = cof(b, v)
        r = _memo[k] = mk(v, ite(c1, a1, b1), ite(c0, a0, b0))
    return r


def neg(c):
    return ite(c, FALSE, TRUE)


def conj(a, b):
    return ite(a, b, FALSE)


def disj(a, b):
    return ite(a, TRUE, b)


def xor(a, b):
    return ite(a, neg(b), b)


def restrict(f, c):
    if c is TRUE or c is FALSE or f.var == INF:
        return f
    k = ("r", f.id, c.id)
    r = _memo.get(k)
    if r is None:
        if c.var < f.var:
            r = restrict(f, disj(c.hi, c.lo))
        elif c.var == f.var:
            if c.hi is FALSE:
                r = restrict(f.lo, c.lo)
            elif c.lo is FALSE:
                r = restrict(f.hi, c.hi)
            else:
                r = mk(f.var, restrict(f.hi, c.hi), restrict(f.lo, c.lo))
        else:
            r = mk(f.var, restrict(f.hi, c), restrict(f.lo, c))
        _memo[k] = r
    return r


def support(f):
    if f._sup is None:
        if f.var == INF:
            f._sup = frozenset()
        else:
            f._sup = support(f.hi) | support(f.lo) | {f.var}
    return f._sup


def leaves(f):
    """[(guard, leaf tuple)] with disjoint guards"""
    if f.var == INF:
        return [(TRUE, f.leaf)]
    k = ("l", f.id)
    r = _memo.get(k)
    if r is None:
        seen = {}
        order = []

        def collect(n):
            if n.id in done:
                return
            done.add(n.id)
            if n.var == INF:
                order.append(n)
            else:
                collect(n.hi)
                collect(n.lo)

        done = set()
        collect(f)
        r = []
        for lf in order:
            memo = {}

            def ind(n):
                if n.var == INF:
                    return TRUE if n is lf else FALSE
                x = memo.get(n.id)
                if x is None:
                    x = memo[n.id] = mk(n.var, ind(n.hi), ind(n.lo))
                return x

            r.append((ind(f), lf.leaf))
        _memo[k] = r
    return r


def mapleaf(f, fn):
    """pure leaf-wise map; fn(leaf) -> Node"""
    if f.var == INF:
        return fn(f.leaf)
    memo = {}

    def go(n):
        x = memo.get(n.id)
        if x is None:
            if n.var == INF:
                x = fn(n.leaf)
            else:
                x = ite(mk(n.var, TRUE, FALSE), go(n.hi), go(n.lo))
            memo[n.id] = x
        return x

    return go(f)


def cube(f):
    """one satisfying assignment as [(atom index, bool)]; f != FALSE"""
    r = []
    while f.var != INF:
        if f.hi is not FALSE:
            r.append((f.var, True))
            f = f.hi
        else:
            r.append((f.var, False))
            f = f.lo
    return r


def show_leaf(l, depth=0):
    if l[0] == "c":
        return repr(l[2])
    if l[0] == "r":
        return "obj%d" % l[1]
    if l[0] == "t":
        if l[1] == "sym":
            return "<%s>" % l[2]
        return "%s(%s)" % (l[1], ", ".join(show(a, depth + 1) if isinstance(a, Node) else str(a) for a in l[2:]))
    if l[0] == "class":
        return "class " + l[1].name
    return "%s:%s" % (l[0], ",".join(str(getattr(x, "name", x)) for x in l[1:]))


def show(n, depth=0):
    if not isinstance(n, Node):
        return str(n)
    if n.var == INF:
        return show_leaf(n.leaf, depth)
    if depth > 6:
        return "..."
    return "if(%s: %s; %s)" % (show_atom(n.var), show(n.hi, depth + 1), show(n.lo, depth + 1))


def show_atom(i):
    a = atoms[i]
    return "%s(%s)" % (a[0], ", ".join(show(x, 2) if isinstance(x, Node) else str(x) for x in a[1:]))


def show_cube(f):
    return " and ".join(("" if b else "not ") + show_atom(i) for i, b in cube(f)) or "always"
