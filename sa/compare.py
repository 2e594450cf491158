"""Agreement of two abstract outcomes: the condition under which they differ.

The result is a decision diagram over the atoms of the inputs; a difference is
reported when that diagram is consistent with the theory for every value of the
atoms the analysis knows nothing about.
"""
from .dd import *
from .core import *
from . import theory

FREE = {"sym", "tuple", "ip_address", "net", "ntuple", "ip_iface", "datetime", "time", "net1"}


class Compare:
    def __init__(self, ipa, sa, ipb, sb, identity=(), order=False, ignore=()):
        self.ipa, self.sa, self.ipb, self.sb = ipa, sa, ipb, sb
        self.memo = {}
        self.open = set()
        self.identity = set(identity)
        self.pairs = {}
        self.trial = 0
        self.unknown = []       # (path, guard) pairs that could not be compared
        self.why = []           # (path, diff, text)
        self.ignore = set(ignore)
        self.keyorder = order

    # -- entry
    def diff(self, na, nb, path="result"):
        """DD: na (under state a) and nb (under state b) differ"""
        d = FALSE
        sat = theory.sat
        for ga, la in leaves(na):
            if not sat(conj(ga, self.pc)):
                continue
            for gb, lb in leaves(restrict(nb, ga)):
                g = conj(ga, gb)
                if g is FALSE or not sat(conj(g, self.pc)):
                    continue
                x = self.leaf(la, lb, path, g)
                x = conj(g, x)
                if x is not FALSE:
                    d = disj(d, x)
        return d

    pc = TRUE

    def note(self, path, g, la, lb):
        if not self.trial and len(self.why) < 60:
            self.why.append((path, g, la, lb))
        return TRUE

    def unk(self, path, g):
        if not self.trial:
            self.unknown.append((path, g))
        return atom(("top", "compare", path))

    def leaf(self, la, lb, path, g):
        if la == lb and la[0] in ("c", "unset"):
            return FALSE
        if la[0] == "top" or lb[0] == "top":
            return self.unk(path, g)
        if la[0] == "raise" or lb[0] == "raise":
            if la[0] == lb[0]:
                return FALSE
            return self.note(path, g, la, lb)
        if la[0] == "unset" or lb[0] == "unset":
            return self.note(path, g, la, lb)
        if la[0] == "r" and lb[0] == "r":
            return self.objs(la, lb, path, g)
        if la[0] == "r" or lb[0] == "r":
            # a fresh sequence and a tuple term
            return self.note(path, g, la, lb)
        if la[0] == "class" and lb[0] == "class":
            return FALSE if la[1].name == lb[1].name else self.note(path, g, la, lb)
        if la[0] in ("class", "func", "bound", "ext", "mod", "bm", "partial", "pyfn", "super") or \
                lb[0] in ("class", "func", "bound", "ext", "mod", "bm", "partial", "pyfn", "super"):
            if la == lb:
                return FALSE
            return self.unk(path, g)
        if la[0] == "c" and lb[0] == "c":
            if type(la[2]) is type(lb[2]) and la[2] == lb[2]:
                return FALSE
            return self.note(path, g, la, lb)
        # at least one term
        if la == lb:
            return FALSE
        ta = la[1] if la[0] == "t" else None
        tb = lb[1] if lb[0] == "t" else None
        if ta == tb and ta in ("tuple", "ntuple"):
            if len(la) != len(lb):
                return self.note(path, g, la, lb)
            d = FALSE
            for i, (x, y) in enumerate(zip(la[2:], lb[2:])):
                if isinstance(x, Node) and isinstance(y, Node):
                    d = disj(d, self.diff(x, y, "%s[%d]" % (path, i)))
                elif x != y:
                    return self.note(path, g, la, lb)
            return d
        if la[0] == "c" and isinstance(la[2], tuple) and tb == "tuple":
            return self.leaf(("t", "tuple") + tuple(C(x) for x in la[2]), lb, path, g)
        if lb[0] == "c" and isinstance(lb[2], tuple) and ta == "tuple":
            return self.leaf(la, ("t", "tuple") + tuple(C(x) for x in lb[2]), path, g)
        e = theory.eq_leaf(self.ipa, self.sa, la, lb)
        if e is TRUE:
            return FALSE
        tya, tyb = tyof(la), tyof(lb)
        if ta in ("ip_address", "net", "ip_iface", "net1") and ta == tb and len(la) == len(lb):
            # injective enough: arguments must agree
            d = FALSE
            for x, y in zip(la[2:], lb[2:]):
                if isinstance(x, Node) and isinstance(y, Node):
                    d = disj(d, self.diff(x, y, path))
                elif x != y:
                    return self.note(path, g, la, lb)
            d = conj(d, neg(e))
            return d
        d = neg(e)
        self.note(path, conj(g, d), la, lb)
        return d

    # -- objects
    def objs(self, la, lb, path, g):
        oa = self.sa.heap.get(la[1])
        ob = self.sb.heap.get(lb[1])
        if oa is None or ob is None:
            if la == lb:
                return FALSE
            raise Undecided("dangling object at %s" % path)
        k = (la[1], lb[1])
        cname = oa.cls.name if oa.cls is not None and hasattr(oa.cls, "name") else None
        if not self.trial and cname in self.identity:
            self.pairs[k] = disj(self.pairs.get(k, FALSE), g)
        if k in self.memo:
            return self.memo[k]
        if k in self.open:
            return FALSE
        self.open.add(k)
        try:
            d = self.objs1(oa, ob, la, lb, path, g)
        finally:
            self.open.discard(k)
        if not self.trial:
            self.memo[k] = d
        return d

    def kindof(self, o):
        return "dict" if o.kind == "ast" else o.kind

    def objs1(self, oa, ob, la, lb, path, g):
        if oa.meta and ob.meta and oa.meta.get("opaque") is not None or la == lb and oa is ob:
            if la == lb and oa.data is ob.data:
                return FALSE
        ka, kb = self.kindof(oa), self.kindof(ob)
        if ka != kb:
            if {ka, kb} <= {"list", "set"}:
                pass
            return self.note(path, g, la, lb)
        if ka == "inst":
            na = oa.cls.name if hasattr(oa.cls, "name") else str(oa.cls)
            nb = ob.cls.name if hasattr(ob.cls, "name") else str(ob.cls)
            if na != nb:
                return self.note(path + ".__class__", g, L(("c", str, na)).leaf, L(("c", str, nb)).leaf)
            d = FALSE
            for f, v in oa.data.items():
                if f.startswith("__") or (na, f) in self.ignore or f.startswith("_"):
                    continue
                w = ob.data.get(f)
                if w is None:
                    d1 = self.classattr(ob, f, lb)
                    w = d1 if d1 is not None else UNSET
                d = disj(d, self.diff(v, w, "%s.%s" % (path, f)))
            return d
        if ka == "list":
            pa = (oa.meta or {}).get("perm")
            pb = (ob.meta or {}).get("perm")
            if pa is not None or pb is not None:
                d = self.bag(oa.data, ob.data, path)
                if pa is None or pb is None:
                    return disj(d, self.unk(path + "(order)", g)) if d is FALSE else d
                if d is FALSE:
                    if len(pa) != len(pb):
                        return self.unk(path + "(order)", g)
                    for x, y in zip(pa, pb):
                        if isinstance(x, Node) and isinstance(y, Node):
                            if self.diff(x, y, path + "(key)") is not FALSE:
                                return self.unk(path + "(order)", g)
                return d
            return self.seq(oa.data, ob.data, path)
        if ka == "set":
            return self.bag(oa.data, ob.data, path)
        if ka == "dict":
            return self.dict_(oa, ob, path)
        if ka in ("xml", "frame"):
            return FALSE if la == lb else self.unk(path, g)
        raise Undecided("compare %s" % ka)

    def classattr(self, ob, f, lb):
        try:
            if hasattr(ob.cls, "find"):
                c, m = ob.cls.find(f)
                if m is not None:
                    self.ipb.excs = [[]]
                    return self.ipb.getattr(L(lb), f, self.sb.fork())
        except (Undecided, Dead):
            return None
        return None

    # gated sequences
    def seq(self, A, B, path):
        A = [(g, v) for g, v in A if g is not FALSE]
        B = [(g, v) for g, v in B if g is not FALSE]
        memo = {}
        na, nb = len(A), len(B)

        def go(i, j):
            k = (i, j)
            if k in memo:
                return memo[k]
            if i == na and j == nb:
                r = FALSE
            elif i == na:
                r = FALSE
                for g, _ in B[j:]:
                    r = disj(r, g)
                if r is not FALSE:
                    self.note(path + "[extra]", r, L(("unset",)).leaf, B[j][1].leaf if B[j][1].var == INF else ("t", "several"))
            elif j == nb:
                r = FALSE
                for g, _ in A[i:]:
                    r = disj(r, g)
                if r is not FALSE:
                    self.note(path + "[missing]", r, A[i][1].leaf if A[i][1].var == INF else ("t", "several"), L(("unset",)).leaf)
            else:
                (g, v), (h, w) = A[i], B[j]
                if g is h:
                    # both there or neither
                    r = memo[k] = disj(conj(g, self.diff(v, w, "%s[%d]" % (path, i))), go(i + 1, j + 1))
                    return r
                both = conj(g, h)
                r = FALSE
                if both is not FALSE:
                    r = conj(both, disj(self.diff(v, w, "%s[%d]" % (path, i)), go(i + 1, j + 1)))
                og = conj(g, neg(h))
                if og is not FALSE:
                    r = disj(r, conj(og, go(i, j + 1)))
                ng = neg(g)
                if ng is not FALSE:
                    r = disj(r, conj(ng, go(i + 1, j)))
            memo[k] = r
            return r

        return go(0, 0)

    def _try(self, v, w, path):
        self.trial += 1
        try:
            return self.diff(v, w, path)
        finally:
            self.trial -= 1

    def bag(self, A, B, path):
        d = FALSE
        for X, Y, sw, tagx in ((A, B, False, "[missing]"), (B, A, True, "[extra]")):
            for g, v in X:
                if g is FALSE:
                    continue
                for gv, lv in leaves(v):
                    gg = conj(g, gv)
                    if gg is FALSE:
                        continue
                    nomatch = gg
                    for h, w in Y:
                        if h is FALSE:
                            continue
                        x = self._try(w, L(lv), path) if sw else self._try(L(lv), w, path)
                        nomatch = conj(nomatch, neg(conj(h, neg(x))))
                        if nomatch is FALSE:
                            break
                    if nomatch is not FALSE:
                        self.note(path + tagx, nomatch, lv if not sw else ("unset",), lv if sw else ("unset",))
                        d = disj(d, nomatch)
        return d

    def dict_(self, oa, ob, path):
        d = FALSE
        rb = list(ob.data)
        ra = []
        consts = all(k.var == INF and k.leaf[0] == "c" for k, _, _ in list(oa.data) + rb)
        for k, g, v in oa.data:
            same = [e for e in rb if e[0] is k] if consts else []
            if len(same) != 1 or sum(1 for e in oa.data if e[0] is k) != 1:
                ra.append((k, g, v))
                continue
            _, h, w = same[0]
            rb.remove(same[0])
            p = "%s[%r]" % (path, k.leaf[2])
            x = xor(g, h)
            if x is not FALSE:
                self.note(p + "(presence)", x, v.leaf or ("t", "several"), w.leaf or ("t", "several"))
                d = disj(d, x)
            both = conj(g, h)
            if both is not FALSE:
                d = disj(d, conj(both, self.diff(v, w, p)))
        A = [(g, T("tuple", k, v)) for k, g, v in ra]
        B = [(g, T("tuple", k, v)) for k, g, v in rb]
        return disj(d, self.bag(A, B, path))

    # identity
    def alias(self):
        """rules that are not the same object where the reference has one object"""
        d = FALSE
        ps = list(self.pairs.items())
        for i, ((a, b), g) in enumerate(ps):
            for (a2, b2), h in ps[i + 1:]:
                if (a == a2) != (b == b2):
                    d = disj(d, conj(g, h))
        return d


def forall_top(d):
    """the difference must hold whatever the unknown atoms are"""
    for i in sorted(support(d)):
        if i in support(d) and istop(atoms[i]):
            d = conj(restrict(d, mk(i, TRUE, FALSE)), restrict(d, mk(i, FALSE, TRUE)))
    return d


_top = {}


def istop(a):
    r = _top.get(a)
    if r is None:
        r = _top[a] = a[0] == "top" or any(istopx(x) for x in a[1:])
    return r


_topn = {}


def istopx(x):
    if isinstance(x, Node):
        r = _topn.get(x.id)
        if r is None:
            _topn[x.id] = False
            if x.var == INF:
                r = x.leaf[0] == "top" or (x.leaf[0] == "t" and any(istopx(y) for y in x.leaf[2:]))
            else:
                r = istop(atoms[x.var]) or istopx(x.hi) or istopx(x.lo)
            _topn[x.id] = r
        return r
    return False


def definite(d):
    """(violated condition or FALSE, undecided part present)"""
    if d is FALSE:
        return FALSE, False
    q = forall_top(d)
    if q is not FALSE:
        u = theory.under_theory(q)
        if u is not FALSE:
            return u, False
    return FALSE, theory.sat(d)
