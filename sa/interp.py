"""Gated abstract interpretation of Python source.

One abstract state per program point; states are joined at every control-flow
merge with gated (phi) values, so no paths are enumerated.  Helpers are inlined
by resolved callee; containers are sequences of gated items.
"""
import ast
import builtins
import ipaddress as _ip

from .dd import *
from .core import *
from . import theory
from . import peg

MAXDEPTH = 48
def descriptor(m):
    """staticmethod / classmethod / property of a class member written name = staticmethod(...)"""
    if isinstance(m, tuple) and m[0] == "expr" and isinstance(m[1], ast.Call) and isinstance(m[1].func, ast.Name):
        if m[1].func.id in ("staticmethod", "classmethod", "property"):
            return m[1].func.id
    return None


PLAIN = {"staticmethod", "classmethod", "property", "tatsumasu", "nomemo", "leftrec", "isname", "abstractmethod", "override", "final",
         "overload", "setter", "getter", "deleter", "cached_property"}
MAXLOOP = 80


class Frame:
    __slots__ = ("oid", "func", "returns", "breaks", "conts", "yields", "module", "handling")

    def __init__(self, oid, func, module):
        self.oid, self.func, self.module = oid, func, module
        self.returns, self.breaks, self.conts = [], [], []
        self.yields = None
        self.handling = None


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.excs = []          # stack of lists of (state, excleaf)
        self.in_try = 0
        self.stack = []         # active calls
        self.override = {}      # qualname -> fn(interp, st, args, kwargs)
        self.extover = {}       # dotted -> fn
        self.effects = []       # (what, where) external effects met
        self.reached = set()    # FuncInfo reached
        self.calls = 0
        self.topn = 0
        self.fuel = 400000
        self.lazycache = {}
        self.pegs = {}          # parser object -> running parse
        self.multi = 0          # inside a region that is interpreted once per value of something
        self.texts = []         # (representative of the text, accepted)
        self.nrules = 0
        from . import models
        self.models = models

    # ------------------------------------------------------------ helpers
    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("analysis budget exhausted")

    def top(self, why):
        self.topn += 1
        return L(("top", why, self.topn))

    def feasible(self, pc):
        return theory.sat(pc)

    def split(self, node, st, fn):
        node = restrict(node, st.pc)
        if node.var == INF:
            return fn(node.leaf, st)
        todo = []
        for g, leaf in leaves(node):
            pc = conj(st.pc, g)
            if pc is FALSE or not self.feasible(pc):
                continue
            todo.append((st.fork(pc), leaf))
        return self.sides(st, [(s2, lambda s, leaf=leaf: fn(leaf, s)) for s2, leaf in todo])

    def sides(self, st, todo):
        """alternatives under disjoint conditions, joined"""
        outs = []
        one = len(todo) == 1
        self.multi += not one
        try:
            for s2, f in todo:
                try:
                    outs.append((s2, f(s2)))
                except Dead:
                    pass
                except (peg.Fail, peg.OptOK) as e:
                    if not one:
                        raise Undecided("outcome of a parse depends on values")
                    raise
        finally:
            self.multi -= not one
        return self.join(st, outs)

    def join(self, st, outs):
        if not outs:
            st.pc = FALSE
            raise Dead()
        s, v = outs[0]
        for s2, v2 in outs[1:]:
            s, v = self.merge2(s, v, s2, v2)
        st.heap, st.pc = s.heap, s.pc
        return v

    def merge2(self, s1, v1, s2, v2):
        pc = disj(s1.pc, s2.pc)
        g = restrict(s1.pc, pc)
        h1, h2 = s1.heap, s2.heap
        heap = dict(h2)
        for k, o1 in h1.items():
            o2 = h2.get(k)
            if o2 is None or o1 is o2:
                heap[k] = o1
            else:
                heap[k] = self.merge_obj(g, o1, o2)
        v = None
        if v1 is not None or v2 is not None:
            v = ite(g, v1 or UNSET, v2 or UNSET)
            v = restrict(v, pc)
        return State(heap, pc), v

    def merge_obj(self, g, a, b):
        r = self.merge_obj1(g, a, b)
        if a.meta is not b.meta and a.meta != b.meta and a.kind in ("list", "set"):
            r = Obj(r.kind, r.cls, r.data, {**(a.meta or {}), **(b.meta or {})})
        return r

    def merge_obj1(self, g, a, b):
        if a.data is b.data:
            return a
        if a.kind == "gen":
            return a if a.data == b.data else a.but(("mixed",))
        if a.kind in ("frame", "inst", "xml"):
            d = dict(b.data)
            for k in list(a.data.keys()) + [k for k in b.data if k not in a.data]:
                va, vb = a.data.get(k, UNSET), b.data.get(k, UNSET)
                if va is not vb:
                    if not isinstance(va, Node) or not isinstance(vb, Node):
                        raise Undecided("merge of special field %s" % k)
                    d[k] = ite(g, va, vb)
                else:
                    d[k] = va
            return a.but(d)
        if a.kind in ("list",):
            return a.but(merge_seq(g, a.data, b.data))
        if a.kind == "set":
            r = []
            db = {v: gg for gg, v in b.data}
            da = {v: gg for gg, v in a.data}
            for gg, v in a.data:
                r.append((ite(g, gg, db.get(v, FALSE)), v))
            for gg, v in b.data:
                if v not in da:
                    r.append((conj(neg(g), gg), v))
            return a.but(tuple(r))
        if a.kind in ("dict", "ast"):
            ka = [k for k, _, _ in a.data]
            kb = [k for k, _, _ in b.data]
            da = {k: (gg, v) for k, gg, v in a.data}
            db = {k: (gg, v) for k, gg, v in b.data}
            if a.meta and a.meta.get("opaque") and ka != kb:
                # ordered overlay: keep order of writes
                n = 0
                while n < len(a.data) and n < len(b.data) and a.data[n] == b.data[n]:
                    n += 1
                r = list(a.data[:n]) + [(k, conj(g, gg), v) for k, gg, v in a.data[n:]] + \
                    [(k, conj(neg(g), gg), v) for k, gg, v in b.data[n:]]
                return a.but(tuple(r))
            r = []
            order = merge_keys(ka, kb)
            mixed = order is None
            for k in order or ka + [k for k in kb if k not in da]:
                ga, va = da.get(k, (FALSE, None))
                gb, vb = db.get(k, (FALSE, None))
                r.append((k, ite(g, ga, gb), va if vb is None else vb if va is None else ite(g, va, vb)))
            if mixed or (b.meta or {}).get("mixed"):
                return Obj(a.kind, a.cls, tuple(r), dict(a.meta or {}, mixed=True))
            return a.but(tuple(r))
        raise Undecided("merge of %s" % a.kind)

    # ------------------------------------------------------------ exceptions
    def raise_(self, st, exc, guard=TRUE):
        """raise exc (Node) under guard; continue without it"""
        guard = restrict(guard, st.pc)
        pc = conj(st.pc, guard)
        if pc is FALSE or not self.feasible(pc):
            return
        if not self.excs:
            raise Undecided("exception outside analysis")
        self.excs[-1].append((st.fork(pc), exc))
        st.pc = conj(st.pc, neg(guard))
        if st.pc is FALSE or not self.feasible(st.pc):
            st.pc = FALSE
            raise Dead()

    def exc(self, name, *args):
        return T("exc", name, *args)

    # ------------------------------------------------------------ heap
    def alloc(self, st, kind, data, cls=None, meta=None):
        o = new_oid()
        st.heap[o] = Obj(kind, cls, data, meta)
        return R(o)

    def obj(self, st, leaf):
        return st.heap[leaf[1]]

    def setdata(self, st, leaf, data):
        o = st.heap[leaf[1]] = st.heap[leaf[1]].but(data)
        if o.kind == "dict" and o.meta and o.meta.get("of"):
            # __dict__ of an instance: what is written to it are attributes
            d = {}
            for k, g, v in data:
                if k.var != INF or k.leaf[0] != "c":
                    raise Undecided("key of __dict__")
                d[k.leaf[2]] = ite(g, v, d.get(k.leaf[2], UNSET))
            self.setdata(st, o.meta["of"], d)

    def new_list(self, st, values):
        return self.alloc(st, "list", tuple((TRUE, v) for v in values))

    def new_seq(self, st, items):
        return self.alloc(st, "list", tuple(items))

    def new_set(self, st, items):
        o = self.alloc(st, "set", ())
        for g, v in items:
            self.set_add(st, o.leaf, v, g)
        return o

    def new_dict(self, st, pairs, kind="dict", meta=None):
        o = self.alloc(st, kind, (), meta=meta)
        for k, v in pairs:
            self.dict_set(st, o.leaf, k, v)
        return o

    def set_add(self, st, leaf, v, g=TRUE):
        def one(l, s):
            o = self.obj(s, leaf)
            node = L(l)
            items = list(o.data)
            for i, (gg, x) in enumerate(items):
                if x is node:
                    items[i] = (disj(gg, g), x)
                    break
            else:
                # a possibly equal element may be present already: keep both, membership is what counts
                items.append((g, node))
            self.setdata(s, leaf, tuple(items))
            return NONE
        self.split(v, st, one)

    def seq_items(self, st, items):
        """simplify guards under pc, drop absent items"""
        r = []
        for g, v in items:
            g = restrict(g, st.pc)
            if g is FALSE:
                continue
            if g is not TRUE:
                if not self.feasible(conj(st.pc, g)):
                    continue
                if not self.feasible(conj(st.pc, neg(g))):
                    g = TRUE
            r.append((g, v))
        return r

    def with_exact(self, items, st, fn):
        """case-split on undecided item guards, fn(values, st)"""
        items = self.seq_items(st, items)
        for g, v in items:
            if g is not TRUE:
                outs = []
                for gg in (g, neg(g)):
                    s2 = st.fork(conj(st.pc, gg))
                    if not self.feasible(s2.pc):
                        continue
                    try:
                        outs.append((s2, self.with_exact(items, s2, fn)))
                    except Dead:
                        pass
                return self.join(st, outs)
        return fn([v for _, v in items], st)

    # dict operations -----------------------------------------------------
    def dict_find(self, st, leaf, key):
        """-> (present BDD, value Node or None)  [pure]"""
        o = self.obj(st, leaf)
        present, value = FALSE, None
        for k, g, v in o.data:
            e = conj(theory.eq_nodes(self, st, k, key), g)
            if e is FALSE:
                continue
            value = v if value is None else ite(e, v, value)
            present = disj(present, e)
        if o.meta and o.meta.get("opaque"):
            name = o.meta["opaque"]
            has = mapleaf(key, lambda l: atom(("haskey", name, L(l))))
            has = mapleaf(has, lambda l: L(l))
            val = mapleaf(key, lambda l: sym("%s[%s]" % (name, show_leaf(l)), **o.meta.get("vtags", {})))
            value = val if value is None else ite(present, value, val)
            present = disj(present, has)
        return present, value

    def dict_set(self, st, leaf, key, v, setdefault=False):
        def one(kl, s):
            o = self.obj(s, leaf)
            knode = L(kl)
            if kl[0] == "r":
                ko = self.obj(s, kl)
                if ko.kind in ("list", "dict", "set", "ast"):
                    self.raise_(s, self.exc("TypeError"))
            items = list(o.data)
            if o.meta and o.meta.get("opaque"):
                items = [it for it in items if it[0] is not knode] + [(knode, TRUE, v)]
            else:
                for i, (k, g, old) in enumerate(items):
                    if k is knode:
                        items[i] = (k, TRUE, v)
                        if g is not TRUE and i < len(items) - 1 and not (o.meta or {}).get("mixed") and restrict(g, s.pc) is not TRUE:
                            # where it was absent it comes last now
                            s.heap[leaf[1]] = Obj(o.kind, o.cls, o.data, dict(o.meta or {}, mixed=True))
                        break
                else:
                    items.append((knode, TRUE, v))
            self.setdata(s, leaf, tuple(items))
            return NONE
        self.split(key, st, one)

    def dict_del(self, st, leaf, key):
        present, _ = self.dict_find(st, leaf, key)
        self.raise_(st, self.exc("KeyError", key), neg(present))
        o = self.obj(st, leaf)
        items = []
        for k, g, v in o.data:
            e = theory.eq_nodes(self, st, k, key)
            g2 = conj(g, neg(e))
            if g2 is not FALSE:
                items.append((k, g2, v))
        self.setdata(st, leaf, tuple(items))

    # ------------------------------------------------------------ truth / equality
    def truth(self, node, st):
        node = restrict(node, st.pc)
        if node is TRUE or node is FALSE:
            return node
        need = [l for _, l in leaves(node)]
        if any(self.has_method(st, l, ("__bool__", "__len__")) for l in need):
            return self.split(node, st, lambda l, s: self.truth1(l, s))
        return restrict(mapleaf(node, lambda l: self.truth1(l, st)), st.pc)

    def has_method(self, st, leaf, names):
        if leaf[0] == "r":
            o = self.obj(st, leaf)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                return any(o.cls.find(n)[0] for n in names)
        return False

    def truth1(self, l, st):
        if l[0] == "c":
            return C(bool(l[2]))
        if l[0] == "r":
            o = self.obj(st, l)
            if o.kind in ("list", "set") and not (o.meta and "iter" in o.meta):
                r = FALSE
                for g, v in o.data:
                    r = disj(r, g)
                return r
            if o.kind in ("dict", "ast"):
                if o.meta and o.meta.get("opaque"):
                    return atom(("true", L(l)))
                r = FALSE
                for k, g, v in o.data:
                    r = disj(r, g)
                return r
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                for n in ("__bool__", "__len__"):
                    if o.cls.find(n)[0]:
                        v = self.call_method(L(l), n, [], {}, st)
                        return self.truth(v, st)
            return TRUE
        if l[0] == "top":
            return atom(("top",) + l[1:])
        if l[0] == "t":
            t = tag(l, "truthy")
            if t is not None:
                return C(t)
            if l[1] == "tuple":
                return C(len(l) > 2)
            if l[1] == "bits":
                return neg(theory.zero(l[2]))
            if l[1] == "fmt":
                if any(isinstance(p, Node) and p.var == INF and p.leaf[0] == "c" and p.leaf[2] for p in l[2:]):
                    return TRUE
            ty = tyof(l)
            if ty in ("addr", "net", "iface", "exc", "datetime"):
                return TRUE
            if tag(l, "cls"):
                return TRUE
            if ty == "int":
                return neg(theory.eq_leaf(self, st, l, C(0).leaf))
            return atom(("true", L(l)))
        if l[0] == "unset":
            raise Undecided("use of possibly unbound value")
        return TRUE

    def eq(self, a, b, st):
        """a == b as BDD (may run user __eq__)"""
        def f(la, s):
            def g(lb, s2):
                for x, y in ((la, lb), (lb, la)):
                    if self.has_method(s2, x, ("__eq__",)):
                        return self.truth(self.call_method(L(x), "__eq__", [L(y)], {}, s2), s2)
                return self.eq1(la, lb, s2)
            return self.split(b, s, g)
        return self.split(a, st, f)

    def eq1(self, la, lb, st):
        if la[0] == "r" and lb[0] == "r" and la != lb:
            oa, ob = self.obj(st, la), self.obj(st, lb)
            if oa.kind == ob.kind == "list":
                ia, ib = self.seq_items(st, oa.data), self.seq_items(st, ob.data)
                if all(g is TRUE for g, _ in ia + ib):
                    if len(ia) != len(ib):
                        return FALSE
                    r = TRUE
                    for (_, x), (_, y) in zip(ia, ib):
                        r = conj(r, self.eq(x, y, st))
                    return r
                raise Undecided("list equality")
            if oa.kind == ob.kind == "set":
                r = TRUE
                for x, y in ((oa, ob), (ob, oa)):
                    for g, v in x.data:
                        r = conj(r, disj(neg(g), self.contains_seq(y.data, v, st, True)))
                return r
            if oa.kind in ("dict", "ast") and ob.kind in ("dict", "ast"):
                return self.eq_dicts(oa, ob, st)
            return FALSE
        return theory.eq_leaf(self, st, la, lb)

    def eq_dicts(self, oa, ob, st):
        ea, eb = ({k: v for k, g, v in o.data if g is TRUE} for o in (oa, ob))
        if len(ea) != len(oa.data) or len(eb) != len(ob.data) or any(k.leaf is None or k.leaf[0] != "c" for k in
                                                                     list(ea) + list(eb)):
            return self.eq_dict_gated(oa, ob, st)
        if set(ea) != set(eb):
            return FALSE
        r = TRUE
        for k, v in ea.items():
            r = conj(r, self.eq(v, eb[k], st))
        return r

    def eq_dict_gated(self, oa, ob, st):
        """constant keys, some of them there only sometimes"""
        if any(not const_key(k) for o in (oa, ob) for k, _, _ in o.data) or any((o.meta or {}).get("opaque") for o in (oa, ob)):
            raise Undecided("dict equality")
        da, db = ({k: (g, v) for k, g, v in o.data} for o in (oa, ob))
        if len(da) != len(oa.data) or len(db) != len(ob.data):
            raise Undecided("dict equality")
        r = TRUE
        for k in list(da) + [k for k in db if k not in da]:
            ga, va = da.get(k, (FALSE, None))
            gb, vb = db.get(k, (FALSE, None))
            both = conj(ga, gb)
            same = neg(disj(ga, gb))
            if both is not FALSE:
                same = disj(same, conj(both, self.branch(both, st, lambda s: self.eq(va, vb, s), lambda s: FALSE)))
            r = conj(r, same)
        return r

    def contains_seq(self, items, v, st, hashed=False):
        r = FALSE
        for g, x in items:
            if x is v:
                e = TRUE        # identity goes first
            else:
                e = self.hash_eq(x, v, st) if hashed else self.eq(x, v, st)
            r = disj(r, conj(g, e))
        return r

    def hash_eq(self, a, b, st):
        """equal hashes and ==, as sets and dicts compare"""
        def f(la, s):
            def g(lb, s2):
                if la == lb:
                    return TRUE
                ia, ib = self.identity_hash(la, s2), self.identity_hash(lb, s2)
                if ia or ib:
                    return FALSE
                return self.eq(L(la), L(lb), s2)
            return self.split(b, s, g)
        return self.split(a, st, f)

    def identity_hash(self, leaf, st):
        """the object is hashed by what it is, not by what it contains"""
        if leaf[0] != "r":
            return leaf[0] in ("cls", "func")
        o = self.obj(st, leaf)
        if o.kind != "inst" or not isinstance(o.cls, ClassInfo):
            return False
        if not o.cls.find("__hash__")[0]:
            return not o.cls.find("__eq__")[0]
        h = self.call_method(L(leaf), "__hash__", [], {}, st)
        return h.leaf == T("id", L(leaf)).leaf if h.leaf is not None else False

    def contains(self, c, v, st):
        def f(l, s):
            if l[0] == "r":
                o = self.obj(s, l)
                if o.kind in ("list", "set"):
                    return self.contains_seq(o.data, v, s, o.kind == "set")
                if o.kind in ("dict", "ast"):
                    return self.dict_find(s, l, v)[0]
                if o.kind == "inst":
                    if self.has_method(s, l, ("__contains__",)):
                        return self.truth(self.call_method(L(l), "__contains__", [v], {}, s), s)
                    if self.has_method(s, l, ("__iter__",)):
                        return self.contains_seq(self.iterate(L(l), s), v, s)
                raise Undecided("in on %s" % o.kind)
            if l[0] == "c":
                if isinstance(l[2], (tuple, frozenset, list)):
                    return self.contains_seq([(TRUE, C(x)) for x in l[2]], v, s)
                if isinstance(l[2], (str, range, bytes)):
                    def g(lv, s2):
                        if lv[0] == "c":
                            try:
                                return C(lv[2] in l[2])
                            except TypeError:
                                self.raise_(s2, self.exc("TypeError"))
                        if isinstance(l[2], range) and l[2].step == 1 and tyof(lv) == "int":
                            return conj(theory.ge(lv, l[2].start), theory.ltc(lv, l[2].stop))
                        return atom(("instr", L(lv), L(l)))
                    return self.split(v, s, g)
                if l[2] is None or isinstance(l[2], (int, float)):
                    self.raise_(s, self.exc("TypeError"))
            if l[0] == "t":
                if l[1] == "tuple":
                    return self.contains_seq([(TRUE, x) for x in l[2:]], v, s)
                if tyof(l) == "net":
                    return self.split(v, s, lambda lv, s2: theory.net_contains(L(l), L(lv)))
                if tyof(l) == "str":
                    return self.split(v, s, lambda lv, s2: self.models.str_contains(self, s2, l, lv))
            if l[0] == "top":
                return atom(("top", "in", l[1], self.top("in").leaf[2]))
            return self.split(v, s, lambda lv, s2: atom(("in", L(lv), L(l))))
        return self.split(c, st, f)

    # ------------------------------------------------------------ iteration
    anyorder = False
    reverse_sets = False    # a set has no order: the members come in the one, or in the other
    sets_iterated = False
    deep = False        # printing an object runs its methods

    def iterate_any(self, node, st):
        """for a result that does not depend on the order"""
        old, self.anyorder = self.anyorder, True
        try:
            return self.iterate(node, st)
        finally:
            self.anyorder = old

    def iterate(self, node, st):
        """items [(guard, value)] of an iterable; node may have several leaves"""
        node = restrict(node, st.pc)
        if node.var == INF:
            return self.iterate1(node.leaf, st)
        if self.lazy_iter(node, st):
            return self.collect(node, st)
        r = []
        for g, l in leaves(node):
            if not self.feasible(conj(st.pc, g)):
                continue
            s2 = st.fork(conj(st.pc, g))
            try:
                items = self.iterate1(l, s2)
            except Dead:
                continue
            r.extend((conj(g, gg), v) for gg, v in items)
            st.heap.update({k: o for k, o in s2.heap.items() if k not in st.heap})
        return r

    def iterate1(self, l, st):
        if l[0] == "r":
            o = self.obj(st, l)
            if o.kind == "gen":
                return self.collect(L(l), st)
            if o.kind in ("list", "set"):
                if o.meta and "iter" in o.meta:
                    self.setdata(st, l, ())
                if o.meta and "perm" in o.meta and not self.anyorder:
                    raise Undecided("the order of sorted words is not known")
                if o.kind == "set" and len(o.data) > 1:
                    self.sets_iterated = True
                    if self.reverse_sets:
                        return self.seq_items(st, tuple(reversed(o.data)))
                return self.seq_items(st, o.data)
            if o.kind in ("dict", "ast"):
                if o.meta and o.meta.get("opaque"):
                    raise Undecided("iteration over opaque table")
                if o.meta and o.meta.get("mixed") and not self.anyorder:
                    raise Undecided("the order of the keys depends on something")
                return self.seq_items(st, [(g, k) for k, g, _ in o.data])
            if o.kind == "xml":
                return list(o.data["children"])
            if o.kind == "inst":
                if self.has_method(st, l, ("__iter__",)):
                    return self.iterate(self.call_method(L(l), "__iter__", [], {}, st), st)
        if l[0] == "c":
            if isinstance(l[2], (str, tuple, frozenset, range, list)):
                if isinstance(l[2], str) and len(l[2]) > 3000:
                    raise Undecided("long string iteration")
                xs = l[2] if not isinstance(l[2], frozenset) else sorted(l[2], key=repr)
                return [(TRUE, C(x)) for x in xs]
            self.raise_(st, self.exc("TypeError"))
        if l[0] == "t":
            if l[1] == "tuple":
                return [(TRUE, x) for x in l[2:]]
            if l[1] == "ntuple":
                return [(TRUE, x) for x in l[4:]]
        raise Undecided("iteration over %s" % show_leaf(l))

    # ------------------------------------------------------------ attributes
    def getattr(self, node, name, st, default=None):
        return self.split(node, st, lambda l, s: self.getattr1(l, name, s, default))

    def getattr1(self, l, name, st, default=None):
        self.tick()
        if l[0] == "r":
            o = self.obj(st, l)
            if name == "__class__":
                return self.typeof(l, st)
            if o.kind in ("inst", "frame"):
                if o.kind == "inst":
                    c, m = self.classattr(o.cls, name)
                    if isinstance(m, FuncInfo) and "property" in m.deco:
                        return self.call(L(("func", m, None)), [L(l)], {}, st)
                v = o.data.get(name)
                if v is not None and v is not UNSET:
                    v = restrict(v, st.pc)
                    us = None
                    for g, lf in leaves(v):
                        if lf == ("unset",):
                            us = g
                    if us is not None:
                        if self.feasible(conj(st.pc, us)):
                            miss = self.missing_attr(st, l, o, name, default)
                            if default is None and miss is None:
                                self.raise_(st, self.exc("AttributeError", name), us)
                                v = restrict(v, st.pc)
                            else:
                                v = ite(us, miss, v)
                        else:
                            v = restrict(v, neg(us))
                    return v
                if name == "__dict__":
                    items = []
                    for k, x in o.data.items():
                        there = TRUE
                        for g, lf in leaves(x):
                            if lf == ("unset",):
                                there = neg(g)
                        if there is not FALSE:
                            items.append((C(k), there, restrict(x, there) if there is not TRUE else x))
                    return self.alloc(st, "dict", tuple(items), meta={"of": l} if o.kind == "inst" else None)
                r = self.missing_attr(st, l, o, name, default)
                if r is not None:
                    return r
                self.raise_(st, self.exc("AttributeError", name))
                raise Dead()
            if o.kind == "ast" and name not in self.models.DICT_METHODS:
                p, v = self.dict_find(st, l, C(name))
                return ite(p, v, NONE) if v is not None else NONE
            if o.kind == "xml":
                if name in o.data and name != "children":
                    return o.data[name]
            return L(("bm", L(l), name))
        if l[0] == "class":
            c = l[1]
            if name in ("__name__", "__qualname__"):
                return C(c.name)
            k, m = self.classattr(c, name)
            if m is None:
                if default is not None:
                    return default
                self.raise_(st, self.exc("AttributeError", name))
            if isinstance(m, FuncInfo):
                f = L(("func", m, None))
                if "classmethod" in m.deco:
                    return L(("bound", L(l), f))
                return f
            if descriptor(m) == "classmethod":
                return mapleaf(self.member_value(k, name, m, st), lambda x: L(("bound", L(l), L(x))))
            return self.member_value(k, name, m, st)
        if l[0] == "mod":
            r = self.global_lookup(l[1], name, st)
            if r is None:
                if default is not None:
                    return default
                self.raise_(st, self.exc("AttributeError", name))
            return r
        if l[0] == "ext":
            if name == "__class__" and l[1] == "builtins.None":
                return L(("ext", "builtins.NoneType"))
            v = self.models.ext_attr(self, st, l[1], name)
            if v is not None:
                return v
            return L(("ext", l[1] + "." + name))
        if l[0] == "c":
            if name == "__class__":
                return L(("ext", "builtins." + l[1].__name__))
            if hasattr(l[2], name):
                return L(("bm", L(l), name))
            if default is not None:
                return default
            self.raise_(st, self.exc("AttributeError", name))
        if l[0] == "t":
            if name == "__class__":
                return self.typeof(l, st)
            v = self.models.term_attr(self, st, l, name)
            if v is not None:
                return v
            if default is not None and tyof(l) in ("str", "int", "addr", "net", "tuple"):
                return default
            cls = tag(l, "cls")
            if cls and isinstance(cls, ClassInfo):
                k, m = self.classattr(cls, name)
                if isinstance(m, FuncInfo):
                    if "property" in m.deco:
                        return self.call(L(("func", m, None)), [L(l)], {}, st)
                    return L(("bound", L(l), L(("func", m, None))))
            return L(("bm", L(l), name))
        if l[0] == "top":
            return self.top(l[1])
        if l[0] in ("func", "bound"):
            if name in ("__name__", "__qualname__"):
                f = l[1] if l[0] == "func" else l[2].leaf[1]
                return C(f.name)
        if l[0] == "super":
            mro = l[2].mro()
            i = mro.index(l[1])
            for c in mro[i + 1:]:
                if isinstance(c, ClassInfo) and name in c.members:
                    m = c.members[name]
                    if isinstance(m, FuncInfo):
                        f = L(("func", m, None))
                        if "staticmethod" in m.deco:
                            return f
                        return L(("bound", l[3], f))
                    return self.member_value(c, name, m, st)
            if any(isinstance(c, str) and c.startswith("tatsu.") for c in mro[i + 1:]):
                return L(("bm", l[3], name))
            return L(("ext", "builtins.object." + name))
        if l[0] == "unset":
            raise Undecided("attribute of unbound value")
        raise Undecided("attribute %s of %s" % (name, show_leaf(l)))

    def missing_attr(self, st, l, o, name, default):
        if o.kind == "inst":
            k, m = self.classattr(o.cls, name)
            if m is not None:
                if isinstance(m, FuncInfo):
                    f = L(("func", m, None))
                    if "staticmethod" in m.deco:
                        return f
                    if "classmethod" in m.deco:
                        return L(("bound", L(("class", o.cls)), f))
                    if "cached_property" in m.deco:
                        v = self.call(f, [L(l)], {}, st)
                        self.setattr(L(l), name, v, st)
                        return v
                    return L(("bound", L(l), f))
                v = self.member_value(k, name, m, st)
                how = descriptor(m)
                if how == "staticmethod":
                    return v
                if how == "classmethod":
                    return mapleaf(v, lambda x: L(("bound", L(("class", o.cls)), L(x))))
                if how == "property":
                    return self.call(v, [L(l)], {}, st)
                return mapleaf(v, lambda x: L(("bound", L(l), L(x))) if x[0] == "func" else L(x))
            if o.meta and o.meta.get("opaque") is not None:
                absent = o.meta.get("absent", ())
                if name not in absent and not (name.startswith("__")):
                    p = o.meta["opaque"] + "." + name
                    return sym(p)
            if isinstance(o.cls, ClassInfo) and o.cls.find("__getattr__")[0]:
                return self.call_method(L(l), "__getattr__", [C(name)], {}, st)
            if isinstance(o.cls, ClassInfo) and o.cls.ordering and name in ("__le__", "__gt__", "__ge__"):
                return L(("bm", L(l), name))
            if isinstance(o.cls, ClassInfo) and default is None:
                eb = [e for e in o.cls.ext_bases() if e not in ("builtins.object", "object")]
                if eb:
                    return L(("bm", L(l), name))
            if isinstance(o.cls, str) and default is None and o.cls.startswith("tatsu."):
                v = peg.config_field(self, st, o, name)
                return v if v is not None else L(("bm", L(l), name))
        return default

    def classattr(self, c, name):
        if not isinstance(c, ClassInfo):
            return None, None
        k, m = c.find(name)
        return k, m

    def member_value(self, k, name, m, st):
        if isinstance(m, Node):
            return m
        if isinstance(m, tuple) and m[0] == "expr":
            return self.lazy(("classattr", k, name), k.module, m[1], st, k)
        if isinstance(m, tuple) and m[0] == "cls":
            self.prog.setup(m[1])
            return L(("class", m[1]))
        raise Undecided("class member %s" % name)

    def lazy(self, key, module, expr, st, cls=None):
        """module / class level value; evaluated once per run in its own frame"""
        v = self.lazycache.get(key)
        if v is not None:
            node, objs = v
            for o, ob in objs.items():
                st.heap.setdefault(o, ob)
            return node
        f = self.alloc(st, "frame", {}, meta=None)
        if cls is not None:
            # names of the class body are visible
            st.heap[f.leaf[1]] = Obj("frame", None, {}, {"cls": cls})
        fr = Frame(f.leaf[1], None, module)
        before = set(st.heap)
        s2 = State(dict(st.heap), TRUE)
        save, self.excs = self.excs, [[]]
        try:
            node = expr(s2, fr) if callable(expr) else self.ev(expr, s2, fr)
        except Dead:
            raise Undecided("module level initialiser raises")
        finally:
            self.excs = save
        objs = {o: ob for o, ob in s2.heap.items() if o not in before}
        self.lazycache[key] = (node, objs)
        st.heap.update(objs)
        return node

    def global_lookup(self, mod, name, st):
        r = self.prog.lookup(mod, name)
        if r is None:
            return None
        if isinstance(r, tuple):
            return self.lazy(("mod", r[1].name, name), r[1], r[2], st)
        return r

    def typeof(self, l, st):
        if l[0] == "c":
            return L(("ext", "builtins." + l[1].__name__))
        if l[0] == "r":
            o = self.obj(st, l)
            if o.kind == "inst":
                return L(("class", o.cls)) if isinstance(o.cls, ClassInfo) else L(("ext", o.cls))
            if o.kind == "ast":
                return L(("ext", "tatsu.ast.AST"))
            return L(("ext", "builtins." + o.kind))
        if l[0] == "t":
            c = tag(l, "cls")
            if isinstance(c, ClassInfo):
                return L(("class", c))
            ty = tyof(l)
            if ty in ("str", "int", "tuple"):
                return L(("ext", "builtins." + ty))
        return T("type", L(l))

    def setattr(self, node, name, v, st):
        def f(l, s):
            if l[0] == "r":
                o = self.obj(s, l)
                if o.kind in ("inst", "xml"):
                    if isinstance(o.cls, ClassInfo):
                        k, m = o.cls.find(name)
                        if isinstance(m, FuncInfo) and "property" in m.deco:
                            self.raise_(s, self.exc("AttributeError", name))
                    d = dict(o.data)
                    d[name] = v
                    self.setdata(s, l, d)
                    return NONE
                if o.kind == "ast":
                    raise Undecided("attribute write on AST")
            if l[0] == "t" and (tag(l, "ty") is None):
                # write to an attribute of an opaque input: recorded as an effect
                key = ("attrwrite", l, name)
                fx = s.heap.get(0)
                d = dict(fx.data) if fx else {}
                d[key] = v
                s.heap[0] = Obj("inst", None, d, None)
                return NONE
            if l[0] == "c" or (l[0] == "t" and tyof(l) in ("str", "int", "addr")):
                self.raise_(s, self.exc("AttributeError", name))
            if l[0] == "top":
                return NONE
            raise Undecided("attribute write on %s" % show_leaf(l))
        self.split(node, st, f)

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kwargs, st, site=None):
        return self.split(fn, st, lambda l, s: self.call1(l, args, kwargs, s, site))

    def call_method(self, recv, name, args, kwargs, st):
        return self.call(self.getattr(recv, name, st), args, kwargs, st)

    def call1(self, l, args, kwargs, st, site=None):
        self.tick()
        if l[0] == "bound":
            return self.call(l[2], [l[1]] + args, kwargs, st, site)
        if l[0] == "func":
            return self.call_func(l, args, kwargs, st)
        if l[0] == "class":
            return self.instantiate(l[1], args, kwargs, st)
        if l[0] == "bm":
            return self.models.method(self, st, l[1], l[2], args, kwargs)
        if l[0] == "ext":
            return self.models.ext_call(self, st, l[1], args, kwargs, site)
        if l[0] == "partial":
            kw = dict(l[3])
            kw.update(kwargs)
            return self.call(l[1], list(l[2]) + args, kw, st, site)
        if l[0] == "pyfn":
            return l[1](self, st, args, kwargs)
        if l[0] == "r":
            o = self.obj(st, l)
            if o.kind == "inst":
                return self.call_method(L(l), "__call__", args, kwargs, st)
        if l[0] == "t" and l[1] == "sym":
            return self.top("call of opaque value")
        if l[0] == "top":
            return self.top(l[1])
        if l[0] == "c":
            self.raise_(st, self.exc("TypeError"))
        raise Undecided("call of %s" % show_leaf(l))

    def instantiate(self, cls, args, kwargs, st):
        ov = self.override.get(cls.name + "()")
        if ov:
            return ov(self, st, args, kwargs)
        names = cls.mro_names()
        if "Exception" in names or "BaseException" in names:
            return T("exc", cls.name, *args)
        if any(n in names for n in ("Enum", "NamedTuple", "Protocol_", "dict", "list", "set", "str", "tuple")):
            raise Undecided("instance of builtin-derived class %s" % cls.name)
        o = self.alloc(st, "inst", {}, cls=cls)
        k, m = cls.find("__init__")
        if m is not None:
            if not isinstance(m, FuncInfo):
                raise Undecided("__init__ of %s" % cls.name)
            self.call_func(("func", m, None), [o] + args, kwargs, st)
        elif cls.dataclass is not None:
            raise Undecided("dataclass")
        elif args or kwargs:
            if [b for b in cls.ext_bases() if b not in ("builtins.object", "object")]:
                return o
            self.raise_(st, self.exc("TypeError"))
        return o

    def call_func(self, l, args, kwargs, st):
        fi = l[1]
        if fi.outer is not None and l[2] is None:
            l = ("func", fi, fi.outer) + tuple(l[3:])
        if fi.deco and len(l) < 4:
            if "tatsumasu" in fi.deco:
                return self.rule_call(fi, args, st)
            if not PLAIN.issuperset(fi.deco):
                return self.call(self.decorated(fi, st), args, kwargs, st)
        ov = self.override.get(fi.qual)
        if ov:
            return ov(self, st, args, kwargs)
        self.calls += 1
        self.reached.add(fi)
        if len(self.stack) > MAXDEPTH:
            raise Undecided("call depth")
        key = (fi, l[2], tuple(args), tuple(sorted(kwargs.items())))
        for k2, heap2 in self.stack:
            if k2 == key and self.same_heap(heap2, st.heap):
                self.raise_(st, self.exc("RecursionError"))
                raise Dead()
        if any(isinstance(n, ast.Nonlocal) for n in ast.walk(fi.node)) and False:
            raise Undecided("nonlocal")
        foid = new_oid()
        data = self.bind(fi, l, args, kwargs, st)
        st.heap[foid] = Obj("frame", None, data, {"parent": l[2], "fi": fi})
        if fi.is_gen:
            def runner(s, each, inside=False):
                fr = Frame(foid, fi, fi.module)
                depth, tr = len(self.excs), self.in_try

                def out(v, s2):
                    # what the consumer raises does not meet the handlers of the generator
                    saved, self.excs, st_try = self.excs, self.excs[:depth], self.in_try
                    self.in_try = tr
                    try:
                        each(v, s2)
                    finally:
                        self.excs, self.in_try = saved, st_try
                fr.yields = each if inside else out
                if len(self.stack) > MAXDEPTH:
                    raise Undecided("call depth")
                self.stack.append(((fi, foid), {}))
                try:
                    return self.body(fi, s, fr)
                finally:
                    self.stack.pop()
            return self.mkgen(st, runner)
        fr = Frame(foid, fi, fi.module)
        self.stack.append((key, {k: o for k, o in st.heap.items() if o.kind != "frame"}))
        try:
            if isinstance(fi.node, ast.Lambda):
                r = self.ev(fi.node.body, st, fr)
                return r
            return self.body(fi, st, fr)
        finally:
            self.stack.pop()

    def decorated(self, fi, st):
        """what the decorators make of a function, once"""
        def make(s, fr):
            v = L(("func", fi, fi.outer, ()))
            for d in reversed(fi.node.decorator_list):
                if (dotted(d.func if isinstance(d, ast.Call) else d) or "?").split(".")[-1] not in PLAIN:
                    v = self.call(self.ev(d, s, fr), [v], {}, s)
            return v
        return self.lazy(("decorated", fi.module.name, fi.qual, fi.node.lineno), fi.module, make, st, fi.cls)

    def body(self, fi, st, fr):
        outs = []
        s2 = st.fork()
        try:
            self.block(fi.node.body, s2, fr)
            outs.append((s2, NONE))
        except Dead:
            pass
        return self.join(st, fr.returns + outs)

    # ------------------------------------------------------------ generators
    def mkgen(self, st, runner):
        """a generator: runner(state, each) runs it, calling each(value, state) for what it yields"""
        return self.alloc(st, "gen", ("fresh", runner))

    def rungen(self, l, st, each):
        d = self.obj(st, l).data
        if d[0] == "done":
            return NONE
        if d[0] != "fresh":
            raise Undecided("generator which is used in parts")
        self.setdata(st, l, ("running",))
        r = d[1](st, each)
        self.setdata(st, l, ("done",))
        return r

    def lazy_iter(self, node, st):
        """an iterator which is used up by iterating"""
        for _, l in leaves(restrict(node, st.pc)):
            if l[0] == "r":
                o = st.heap[l[1]]
                if o.kind == "gen" or o.meta and "iter" in o.meta:
                    return True
        return False

    def each(self, node, st, cb):
        """cb(value, state) for all items of an iterable, one after the other"""
        node = restrict(node, st.pc)
        if node.var != INF and self.lazy_iter(node, st):
            return self.split(node, st, lambda l, s: self.each(L(l), s, cb))
        if node.var == INF and node.leaf[0] == "r":
            l = node.leaf
            o = self.obj(st, l)
            if o.kind == "gen":
                return self.rungen(l, st, cb)
            if o.meta and "iter" in o.meta:
                items = self.seq_items(st, o.data)
                n = 0
                while n < len(items):
                    g, v = items[n]
                    n += 1
                    rest = tuple(items[n:])
                    self.setdata(st, l, rest)
                    self.branch(restrict(g, st.pc), st, lambda s: cb(v, s), lambda s: None)
                    now = self.obj(st, l).data
                    if now is not rest and now != rest:
                        if not all(gg is TRUE for gg, _ in now):
                            raise Undecided("iterator which is used in parts")
                        items = items[:n] + list(now)
                return NONE
            if o.kind == "inst" and self.has_method(st, l, ("__iter__",)):
                return self.each(self.call_method(node, "__iter__", [], {}, st), st, cb)
        items = self.iterate(node, st)
        if len(items) > 400:
            raise Undecided("long iteration")
        for g, v in items:
            self.branch(restrict(g, st.pc), st, lambda s: cb(v, s), lambda s: None)
        return NONE

    def collect(self, node, st):
        """items of iterators, which are used up"""
        out = self.alloc(st, "list", ())

        def cb(v, s):
            self.setdata(s, out.leaf, self.obj(s, out.leaf).data + ((TRUE, v),))
        self.each(node, st, cb)
        return list(self.obj(st, out.leaf).data)

    def first(self, node, st, found):
        """run until found(value, state) says so: [(state, value)] of the finds; the state goes on without any"""
        hits = []

        def cb(v, s):
            c, r = found(v, s)
            c = restrict(c, s.pc)
            if c is FALSE:
                return
            pc = conj(s.pc, c)
            if self.feasible(pc):
                hits.append((s.fork(pc), r))
            s.pc = conj(s.pc, neg(c))
            if s.pc is FALSE or not self.feasible(s.pc):
                s.pc = FALSE
                raise Dead()
        outs = []
        s2 = st.fork()
        try:
            self.each(node, s2, cb)
            outs.append((s2, None))
        except Dead:
            pass
        return hits, outs

    def rule_call(self, fi, args, st):
        oid = args[0].leaf[1] if args and args[0].leaf is not None and args[0].leaf[0] == "r" else None
        P = self.pegs.get(oid)
        if P is None:
            raise Undecided("rule %s outside a parse" % fi.qual)
        return P.tonode(st, P.call(fi, st))

    def same_heap(self, h1, h2):
        for k, o in h1.items():
            if h2.get(k) is not o:
                return False
        return True

    def bind(self, fi, l, args, kwargs, st):
        a = fi.node.args
        data = {}
        kwargs = dict(kwargs)
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for i, n in enumerate(pos):
            if i < len(args):
                data[n] = args[i]
                if n in kwargs and i >= len(a.posonlyargs):
                    self.raise_(st, self.exc("TypeError", C("multiple values for " + n)))
            elif n in kwargs and i >= len(a.posonlyargs):
                data[n] = kwargs.pop(n)
        rest = args[len(pos):]
        if a.vararg:
            data[a.vararg.arg] = T("tuple", *rest)
        elif rest:
            self.raise_(st, self.exc("TypeError", C("too many arguments")))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                data[x.arg] = kwargs.pop(x.arg)
        dflt = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dflt[x.arg] = d
        made = dict(l[3]) if len(l) > 3 and isinstance(l[3], tuple) else {}
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in data:
                if n in made:
                    data[n] = made[n]
                elif n in dflt:
                    if isinstance(fi.node, ast.Lambda) or l[2] is not None:
                        fr = Frame(l[2], fi, fi.module) if l[2] is not None else Frame(None, None, fi.module)
                        if isinstance(dflt[n], ast.Constant):
                            data[n] = C(dflt[n].value)
                        else:
                            data[n] = self.ev(dflt[n], st, fr)
                    else:
                        # evaluated once at definition: shared between calls
                        data[n] = self.lazy(("default", fi.module.name, fi.qual, n), fi.module, dflt[n], st, fi.cls)
                else:
                    self.raise_(st, self.exc("TypeError", C("missing argument " + n)))
        if a.kwarg:
            data[a.kwarg.arg] = self.new_dict(st, [(C(k), v) for k, v in kwargs.items()])
        elif kwargs:
            self.raise_(st, self.exc("TypeError", C("unexpected keyword " + ",".join(sorted(kwargs)))))
        return data

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            self.stmt(s, st, fr)

    def stmt(self, s, st, fr):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided("statement %s at %s:%d" % (type(s).__name__, fr.module.path, s.lineno))
        m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    def s_Import(self, s, st, fr):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            m = self.prog.module(a.name if a.asname else n)
            self.setvar(n, L(("mod", m)) if m else L(("ext", a.name if a.asname else n)), st, fr)

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            m = self.prog.module(s.module or "") if not s.level else None
            if s.level:
                raise Undecided("relative import")
            v = self.global_lookup(m, a.name, st) if m else L(("ext", "%s.%s" % (s.module, a.name)))
            if v is None:
                m2 = self.prog.module("%s.%s" % (s.module, a.name))
                if m2:
                    v = L(("mod", m2))
                else:
                    self.raise_(st, self.exc("ImportError"))
            self.setvar(a.asname or a.name, v, st, fr)

    def s_FunctionDef(self, s, st, fr):
        fi = FuncInfo(s, fr.module, s.name, None, ())
        v = self.closure(fi, st, fr)
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, st, fr), [v], {}, st)
        self.setvar(s.name, v, st, fr)

    def closure(self, fi, st, fr):
        """a function made while running: the defaults are evaluated now"""
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = list(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        d += [(x.arg, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None]
        if not d:
            return L(("func", fi, fr.oid))
        return L(("func", fi, fr.oid, tuple((n, self.ev(v, st, fr)) for n, v in d)))

    def s_ClassDef(self, s, st, fr):
        c = fr.module.mkclass(s)
        for b in s.bases:
            v = self.ev(b, st, fr)
            if v.var != INF or v.leaf[0] not in ("class", "ext"):
                raise Undecided("base of a class in a function")
            c.bases.append(v.leaf[1])
        for m in c.members.values():
            if isinstance(m, FuncInfo):
                m.outer = fr.oid
            elif isinstance(m, tuple) and m[0] == "cls":
                raise Undecided("class in a class in a function")
        self.setvar(s.name, L(("class", c)), st, fr)

    def s_Global(self, s, st, fr):
        raise Undecided("global")

    def s_Nonlocal(self, s, st, fr):
        o = st.heap[fr.oid]
        m = dict(o.meta or {})
        m["nonlocal"] = tuple(m.get("nonlocal", ())) + tuple(s.names)
        st.heap[fr.oid] = Obj(o.kind, o.cls, o.data, m)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append((st.fork(), v))
        st.pc = FALSE
        raise Dead()

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, fr)
            v = self.ev(s.value, st, fr)
            self.setvar(t.id, self.augop(s.op, cur, v, st), st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            cur = self.getattr(b, t.attr, st)
            v = self.ev(s.value, st, fr)
            self.setattr(b, t.attr, self.augop(s.op, cur, v, st), st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            i = self.ev(t.slice, st, fr)
            cur = self.getitem(b, i, st)
            v = self.ev(s.value, st, fr)
            self.setitem(b, i, self.augop(s.op, cur, v, st), st)

    def augop(self, op, cur, v, st):
        def f(l, s):
            if l[0] == "r":
                o = self.obj(s, l)
                if o.kind == "list" and isinstance(op, ast.Add):
                    self.models.method(self, s, L(l), "extend", [v], {})
                    return L(l)
                if o.kind == "set":
                    nm = {ast.BitOr: "update", ast.BitAnd: "intersection_update", ast.Sub: "difference_update",
                          ast.BitXor: "symmetric_difference_update"}.get(type(op))
                    if nm:
                        self.models.method(self, s, L(l), nm, [v], {})
                        return L(l)
                if o.kind == "dict" and isinstance(op, ast.BitOr):
                    self.models.method(self, s, L(l), "update", [v], {})
                    return L(l)
            return self.binop(op, L(l), v, s)
        return self.split(cur, st, f)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, UNSET, st, fr)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, st, fr), t.attr, st)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                if isinstance(t.slice, ast.Slice):
                    i = self.slice_of(t.slice, st, fr)
                else:
                    i = self.ev(t.slice, st, fr)
                self.delitem(b, i, st)
            else:
                raise Undecided("del")

    def delattr(self, node, name, st):
        def f(l, s):
            if l[0] != "r":
                raise Undecided("delattr")
            o = self.obj(s, l)
            d = dict(o.data)
            if name not in d:
                self.raise_(s, self.exc("AttributeError", name))
            del d[name]
            self.setdata(s, l, d)
            return NONE
        self.split(node, st, f)

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        self.branch(c, st, lambda s2: self.block(s.body, s2, fr), lambda s2: self.block(s.orelse, s2, fr))

    def branch(self, c, st, fa, fb):
        c = restrict(c, st.pc)
        if c is not TRUE and c is not FALSE:
            if not self.feasible(conj(st.pc, c)):
                c = FALSE
            elif not self.feasible(conj(st.pc, neg(c))):
                c = TRUE
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        return self.sides(st, [(st.fork(conj(st.pc, g)), f) for g, f in ((c, fa), (neg(c), fb))])

    def cond(self, e, st, fr):
        """truth of an expression as BDD"""
        return self.truth(self.ev(e, st, fr), st)

    def s_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if s.msg is None:
            self.raise_(st, self.exc("AssertionError"), neg(c))
            return

        def bad(s2):
            self.raise_(s2, self.exc("AssertionError", self.ev(s.msg, s2, fr)))
        self.branch(c, st, lambda s2: None, bad)

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            if fr.handling is None:
                raise Undecided("bare raise")
            self.raise_(st, fr.handling)
        else:
            v = self.ev(s.exc, st, fr)

            def f(l, s2):
                if l[0] == "class":
                    self.raise_(s2, T("exc", l[1].name))
                elif l[0] == "ext":
                    self.raise_(s2, T("exc", l[1].split(".")[-1]))
                elif l[0] == "t" and l[1] == "exc":
                    self.raise_(s2, L(l))
                elif l[0] == "top":
                    self.raise_(s2, T("exc", "Exception"))
                else:
                    self.raise_(s2, self.exc("TypeError"))
                raise Dead()
            self.split(v, st, f)
        st.pc = FALSE
        raise Dead()

    def s_Try(self, s, st, fr):
        if s.finalbody:
            inner = ast.Try(body=s.body, handlers=s.handlers, orelse=s.orelse, finalbody=[])
            ast.copy_location(inner, s)

            def final(s2, ex):
                self.block(s.finalbody, s2, fr)
                return FALSE
            return self.protected(st, fr, lambda s2: self.s_Try(inner, s2, fr) if s.handlers else self.block(s.body, s2, fr), final)
        outs = []
        self.excs.append([])
        self.in_try += 1
        s2 = st.fork()
        ok = True
        try:
            self.block(s.body, s2, fr)
        except Dead:
            ok = False
        finally:
            self.in_try -= 1
            pend = self.excs.pop()
        if ok:
            try:
                self.block(s.orelse, s2, fr)
                outs.append((s2, None))
            except Dead:
                pass
        for es, ex in pend:
            self.handle(s, es, ex, outs, fr)
        self.join(st, outs)

    def protected(self, st, fr, body, leave):
        """run body; leave(state, exception or None) on every way out, its result says whether the exception ends there"""
        lists = [fr.returns] + fr.breaks + fr.conts
        marks = [len(x) for x in lists]
        self.excs.append([])
        self.in_try += 1
        outs = []
        s2 = st.fork()
        ok = True
        try:
            body(s2)
        except Dead:
            ok = False
        finally:
            self.in_try -= 1
            pend = self.excs.pop()
        left = []
        for x, n in zip([fr.returns] + fr.breaks + fr.conts, marks):
            left.append((x, x[n:]))
            del x[n:]
        if ok:
            try:
                leave(s2, None)
                outs.append((s2, None))
            except Dead:
                pass
        for es, ex in pend:
            try:
                c = restrict(leave(es, ex), es.pc)
                if c is not FALSE:
                    outs.append((es.fork(conj(es.pc, c)), None))
                if c is not TRUE:
                    es.pc = conj(es.pc, neg(c))
                    self.excs[-1].append((es, ex))
            except Dead:
                pass
        for x, new in left:
            for y in new:
                try:
                    leave(y[0] if isinstance(y, tuple) else y, None)
                    x.append(y)
                except Dead:
                    pass
        self.join(st, [(s3, v) for s3, v in outs if s3.pc is not FALSE and self.feasible(s3.pc)])

    def handle(self, s, es, ex, outs, fr):
        """dispatch one exceptional exit over the handlers"""
        for g, l in leaves(restrict(ex, es.pc)):
            cur = es.fork(conj(es.pc, g))
            if not self.feasible(cur.pc):
                continue
            name = l[2] if l[0] == "t" and l[1] == "exc" else "Exception"
            for h in s.handlers:
                m = self.handler_matches(h, name, cur, fr)
                if m:
                    saved = fr.handling
                    fr.handling = L(l)
                    try:
                        if h.name:
                            self.setvar(h.name, L(l), cur, fr)
                        self.block(h.body, cur, fr)
                        outs.append((cur, None))
                    except Dead:
                        pass
                    finally:
                        fr.handling = saved
                    break
            else:
                self.excs[-1].append((cur, L(l)))

    def handler_matches(self, h, name, st, fr):
        if h.type is None:
            return True
        mro = self.exc_mro(name)
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            n = dotted(t)
            if n is None:
                raise Undecided("handler type")
            n = n.split(".")[-1]
            if n in ("error", "herror", "gaierror") or n == "IOError":
                n = "OSError"
            if n in mro:
                return True
            if n in ("Exception", "BaseException"):
                return True
        return False

    def exc_mro(self, name):
        for m in list(self.prog.mods.values()):
            if m and name in m.names and m.names[name][0] == "cls":
                c = m.names[name][1]
                self.prog.setup(c)
                return c.mro_names()
        return ext_mro("builtins." + name)

    def s_For(self, s, st, fr):
        it = restrict(self.ev(s.iter, st, fr), st.pc)
        if it.var == INF and it.leaf[0] == "r" and self.obj(st, it.leaf).kind == "inst" and self.has_method(st, it.leaf, ("__iter__",)):
            it = restrict(self.call_method(it, "__iter__", [], {}, st), st.pc)
        if self.lazy_iter(it, st):
            return self.loop(it, s.body, s.orelse, st, fr, lambda v, s2: self.assign(s.target, v, s2, fr))
        items = self.iterate(it, st)
        live = None
        if isinstance(s.iter, ast.Name) or isinstance(s.iter, ast.Attribute):
            live = restrict(it, st.pc)
        self.loop(items, s.body, s.orelse, st, fr, lambda v, s2: self.assign(s.target, v, s2, fr), live)

    def loop(self, items, body, orelse, st, fr, bindf, live=None):
        fr.breaks.append([])
        fr.conts.append([])
        if not isinstance(items, Node) and len(items) > 400:
            raise Undecided("long loop")
        alive = True

        def step(v, s2):
            fr.conts[-1] = []
            outs = []
            s3 = s2.fork()
            try:
                bindf(v, s3)
                self.block(body, s3, fr)
                outs.append((s3, None))
            except Dead:
                pass
            outs += [(c, None) for c in fr.conts[-1]]
            self.join(s2, outs)

        try:
            try:
                if isinstance(items, Node):
                    self.each(items, st, step)
                    items = ()
                i = 0
                while i < len(items):
                    g, v = items[i]
                    i += 1
                    self.branch(restrict(g, st.pc), st, lambda s2: step(v, s2), lambda s2: None)
                    if live is not None and live.var == INF and live.leaf[0] == "r":
                        # list mutated while iterating over it
                        cur = self.obj(st, live.leaf)
                        if cur.kind == "list":
                            now = self.seq_items(st, cur.data)
                            if [x for _, x in now] != [x for _, x in items]:
                                if all(gg is TRUE for gg, _ in now):
                                    items = now
                                else:
                                    raise Undecided("list changed during iteration")
            except Dead:
                alive = False
            outs = []
            brk = [(b, None) for b in fr.breaks[-1]]
        finally:
            fr.breaks.pop()
            fr.conts.pop()
        if alive:
            s2 = st.fork()
            try:
                self.block(orelse, s2, fr)
                outs.append((s2, None))
            except Dead:
                pass
        self.join(st, outs + brk)

    def s_While(self, s, st, fr):
        fr.breaks.append([])
        fr.conts.append([])
        exits = []
        n = 0
        try:
            cur = st.fork()
            while True:
                n += 1
                if n > MAXLOOP:
                    raise Undecided("while loop bound")
                try:
                    c = restrict(self.cond(s.test, cur, fr), cur.pc)
                except Dead:
                    break
                if c is not TRUE and c is not FALSE:
                    if not self.feasible(conj(cur.pc, c)):
                        c = FALSE
                    elif not self.feasible(conj(cur.pc, neg(c))):
                        c = TRUE
                if c is not TRUE:
                    ex = cur.fork(conj(cur.pc, neg(c)))
                    try:
                        self.block(s.orelse, ex, fr)
                        exits.append((ex, None))
                    except Dead:
                        pass
                if c is FALSE:
                    break
                cur.pc = conj(cur.pc, c)
                fr.conts[-1] = []
                outs = []
                s3 = cur.fork()
                try:
                    self.block(s.body, s3, fr)
                    outs.append((s3, None))
                except Dead:
                    pass
                outs += [(x, None) for x in fr.conts[-1]]
                if not outs:
                    break
                before = dict(cur.heap)
                self.join(cur, outs)
                if c is TRUE and len(outs) == 1 and not fr.breaks[-1] and before == cur.heap and n > 2:
                    self.raise_(cur, self.exc("NoReturnDiverges"))
            exits += [(b, None) for b in fr.breaks[-1]]
        finally:
            fr.breaks.pop()
            fr.conts.pop()
        self.join(st, exits)

    def s_Break(self, s, st, fr):
        fr.breaks[-1].append(st.fork())
        st.pc = FALSE
        raise Dead()

    def s_Continue(self, s, st, fr):
        fr.conts[-1].append(st.fork())
        st.pc = FALSE
        raise Dead()

    def s_With(self, s, st, fr):
        for n, it in enumerate(s.items):
            v = restrict(self.ev(it.context_expr, st, fr), st.pc)
            if v.leaf is not None and v.leaf[0] == "pegcm":
                rest = s.items[n + 1:]
                if rest:
                    inner = ast.copy_location(ast.With(items=rest, body=s.body), s)
                    return peg.with_(self, st, v.leaf, lambda s2: self.s_With(inner, s2, fr))
                return peg.with_(self, st, v.leaf, lambda s2: self.block(s.body, s2, fr))
            inner = None
            if s.items[n + 1:]:
                inner = ast.copy_location(ast.With(items=s.items[n + 1:], body=s.body), s)

            def body(s2):
                if inner is not None:
                    self.s_With(inner, s2, fr)
                else:
                    self.block(s.body, s2, fr)

            def one(l, s2):
                self.with_one(l, it, body, s2, fr)
                return NONE
            if any(self.manages(l, st) for _, l in leaves(v)):
                return self.split(v, st, one)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        self.block(s.body, st, fr)

    def manages(self, l, st):
        return l[0] == "t" and l[1] in ("suppress", "gencm", "nullcontext") or l == NONE.leaf or \
            l[0] == "r" and self.obj(st, l).kind != "xml" and isinstance(self.obj(st, l).cls, (ClassInfo, type(None)))

    def with_one(self, l, it, body, st, fr):
        def bind(v, s2):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s2, fr)
        if l[0] == "t" and l[1] == "suppress":
            bind(L(l), st)

            def leave(s2, ex):
                if ex is None:
                    return FALSE
                return mapleaf(ex, lambda x: C(any(self.exc_is(x, restrict(c, s2.pc)) for c in l[2:])))
            return self.protected(st, fr, body, leave)
        if l[0] == "t" and l[1] == "nullcontext":
            bind(l[2], st)
            return body(st)
        if l[0] == "t" and l[1] == "gencm":
            g = self.call(l[2], list(l[3].leaf[2:]), dict(l[4]), st)
            lists = [fr.returns] + fr.breaks + fr.conts
            marks = [len(x) for x in lists]
            d = self.obj(st, g.leaf).data if g.leaf is not None and g.leaf[0] == "r" else None
            if d is None or d[0] != "fresh":
                raise Undecided("context manager")

            def inside(v, s2):
                bind(v, s2)
                body(s2)
            d[1](st, inside, True)
            if any(len(x) != n for x, n in zip(lists, marks)):
                raise Undecided("way out of a context manager which is a generator")
            return
        if l[0] != "r" or self.obj(st, l).kind != "inst" or not (self.has_method(st, l, ("__enter__",)) and self.has_method(st, l, ("__exit__",))):
            self.raise_(st, self.exc("TypeError"))
            raise Dead()
        bind(self.call_method(L(l), "__enter__", [], {}, st), st)

        def leave(s2, ex):
            if ex is None:
                self.call_method(L(l), "__exit__", [NONE, NONE, NONE], {}, s2)
                return FALSE
            return self.split(ex, s2, lambda x, s3: self.truth(self.call_method(
                L(l), "__exit__", [L(("ext", "builtins." + x[2])) if x[0] == "t" and x[1] == "exc" else self.top("exception"), L(x), self.top("traceback")], {}, s3), s3))
        self.protected(st, fr, body, leave)

    def exc_is(self, x, c):
        name = x[2] if x[0] == "t" and x[1] == "exc" else "Exception"
        if c.var != INF or c.leaf[0] not in ("class", "ext"):
            raise Undecided("exception class")
        n = c.leaf[1].name if c.leaf[0] == "class" else c.leaf[1].split(".")[-1]
        return n in self.exc_mro(name) or n in ("Exception", "BaseException")

    def s_Match(self, s, st, fr):
        v = self.ev(s.subject, st, fr)
        self.match_cases(s.cases, v, st, fr)

    def match_cases(self, cases, v, st, fr):
        if not cases:
            return None
        c0 = cases[0]
        names = []
        for n in ast.walk(c0.pattern):
            n = getattr(n, "rest", None) if isinstance(n, ast.MatchMapping) else getattr(n, "name", None) if isinstance(
                n, (ast.MatchAs, ast.MatchStar)) else None
            if n and n not in names:
                names.append(n)
        r = self.match(c0.pattern, v, st, fr, {}, lambda s, b: T("tuple", *[b[n] for n in names]))
        g = mapleaf(r, lambda l: TRUE if l[0] == "t" else FALSE)
        rest = lambda s2: self.match_cases(cases[1:], v, s2, fr)

        def yes(s2):
            for k, n in enumerate(names):
                self.setvar(n, mapleaf(restrict(r, s2.pc), lambda l: l[2 + k]), s2, fr)
            if c0.guard is not None:
                gg = self.cond(c0.guard, s2, fr)
                return self.branch(gg, s2, lambda s3: self.block(c0.body, s3, fr), rest)
            return self.block(c0.body, s2, fr)

        self.branch(g, st, yes, rest)

    def match(self, p, v, st, fr, binds, yes):
        """what yes makes of the bindings where the pattern matches, FALSE elsewhere"""
        no = lambda s: FALSE
        if isinstance(p, ast.MatchValue):
            return self.branch(self.eq(v, self.ev(p.value, st, fr), st), st, lambda s: yes(s, binds), no)
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.is_(v, C(p.value), st), st, lambda s: yes(s, binds), no)
        if isinstance(p, ast.MatchOr):
            def alternatives(ps, s):
                if not ps:
                    return FALSE
                r = self.match(ps[0], v, s, fr, binds, yes)
                hit = mapleaf(r, lambda l: FALSE if l == FALSE.leaf else TRUE)
                return self.branch(hit, s, lambda s2: r, lambda s2: alternatives(ps[1:], s2))
            return alternatives(p.patterns, st)
        if isinstance(p, ast.MatchAs):
            def bound(s, b):
                return yes(s, dict(b, **{p.name: v}) if p.name else b)
            return bound(st, binds) if p.pattern is None else self.match(p.pattern, v, st, fr, binds, bound)
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, st, fr)
            if p.patterns and len(p.patterns) == 1 and cls.leaf is not None and cls.leaf[0] == "ext" and cls.leaf[1].split(".")[-1] in (
                    "bool", "bytearray", "bytes", "dict", "float", "frozenset", "int", "list", "set", "str", "tuple"):
                return self.branch(self.models.isinstance_(self, st, v, cls), st, lambda s: self.match(p.patterns[0], v, s, fr, binds, yes), no)

            def attrs(todo, s, b):
                if not todo:
                    return yes(s, b)
                n, q = todo[0]

                def has(l, s2):
                    if l == self.models.SENT.leaf:
                        return FALSE
                    return self.match(q, L(l), s2, fr, b, lambda s3, b3: attrs(todo[1:], s3, b3))
                return self.split(self.getattr(v, n, s, self.models.SENT), s, has)

            def members(s):
                todo = list(zip(p.kwd_attrs, p.kwd_patterns))
                if p.patterns:
                    names = self.getattr(cls, "__match_args__", s, self.models.SENT)
                    if names.leaf is None or names.leaf == self.models.SENT.leaf:
                        raise Undecided("match class without __match_args__")
                    names = [x.leaf[2] for _, x in self.iterate(names, s)]
                    if len(names) < len(p.patterns):
                        self.raise_(s, self.exc("TypeError"))
                        return FALSE
                    todo = list(zip(names, p.patterns)) + todo
                return attrs(todo, s, binds)
            return self.branch(self.models.isinstance_(self, st, v, cls), st, members, no)
        if isinstance(p, ast.MatchSequence):
            def seq(l, s):
                if l[0] == "c" and not isinstance(l[2], (tuple, list, range)):
                    return FALSE
                if l[0] == "t" and l[1] not in ("tuple", "ntuple"):
                    if self.models.tyof(l) is None:
                        raise Undecided("match sequence")
                    return FALSE
                if l[0] not in "crt" or l[0] == "r" and self.obj(s, l).kind != "list":
                    return FALSE
                return self.with_exact(self.iterate1(l, s), s, exact)

            def exact(vals, s):
                star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
                ps = list(p.patterns)
                vals = list(vals)
                b = binds
                if star:
                    k = star[0]
                    after = len(ps) - k - 1
                    if len(vals) < k + after:
                        return FALSE
                    if ps[k].name:
                        b = dict(b, **{ps[k].name: self.new_list(s, vals[k:len(vals) - after])})
                    vals = vals[:k] + vals[len(vals) - after:]
                    ps = ps[:k] + ps[k + 1:]
                if len(vals) != len(ps):
                    return FALSE

                def each(n, s2, b2):
                    if n == len(ps):
                        return yes(s2, b2)
                    return self.match(ps[n], vals[n], s2, fr, b2, lambda s3, b3: each(n + 1, s3, b3))
                return each(0, s, b)
            return self.split(v, st, seq)
        if isinstance(p, ast.MatchMapping) and not p.rest:
            def mapping(l, s):
                if l[0] != "r" or self.obj(s, l).kind not in ("dict", "ast"):
                    if l[0] in "cr":
                        return FALSE
                    raise Undecided("match mapping")

                def each(n, s2, b2):
                    if n == len(p.keys):
                        return yes(s2, b2)
                    here, x = self.dict_find(s2, l, self.ev(p.keys[n], s2, fr))
                    if x is None:
                        return FALSE
                    return self.branch(here, s2, lambda s3: self.match(p.patterns[n], x, s3, fr, b2, lambda s4, b4: each(n + 1, s4, b4)), no)
                return each(0, s, binds)
            return self.split(v, st, mapping)
        raise Undecided("match pattern")

    # ------------------------------------------------------------ assignment
    def setvar(self, name, v, st, fr):
        oid = fr.oid
        o = st.heap[oid]
        if o.meta and name in o.meta.get("nonlocal", ()):
            oid = o.meta["parent"]
            while name not in st.heap[oid].data:
                oid = (st.heap[oid].meta or {}).get("parent")
                if oid is None:
                    raise Undecided("nonlocal")
            o = st.heap[oid]
        d = dict(o.data)
        d[name] = v
        st.heap[oid] = o.but(d)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st, fr), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                i = self.slice_of(t.slice, st, fr)
            else:
                i = self.ev(t.slice, st, fr)
            self.setitem(b, i, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            def f(l, s):
                items = self.iterate1(l, s)

                def g(vals, s2):
                    star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
                    if star:
                        k = star[0]
                        after = len(t.elts) - k - 1
                        if len(vals) < k + after:
                            self.raise_(s2, self.exc("ValueError"))
                        parts = list(vals[:k]) + [self.new_list(s2, vals[k:len(vals) - after])] + \
                            list(vals[len(vals) - after:])
                        for x, y in zip(t.elts, parts):
                            self.assign(x.value if isinstance(x, ast.Starred) else x, y, s2, fr)
                        return NONE
                    if len(vals) != len(t.elts):
                        self.raise_(s2, self.exc("ValueError", C("unpack")))
                    for x, y in zip(t.elts, vals):
                        self.assign(x, y, s2, fr)
                    return NONE
                return self.with_exact(items, s, g)
            self.split(v, st, f)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Undecided("assignment target")

    # ------------------------------------------------------------ items
    def slice_of(self, sl, st, fr):
        parts = []
        for x in (sl.lower, sl.upper, sl.step):
            parts.append(self.ev(x, st, fr) if x is not None else NONE)
        return T("slice", *parts)

    def getitem(self, base, ix, st):
        return self.split(base, st, lambda l, s: self.split(ix, s, lambda i, s2: self.getitem1(l, i, s2)))

    def getitem1(self, l, i, st):
        self.tick()
        if l[0] == "r":
            o = self.obj(st, l)
            if self.models.lazy(o):
                self.raise_(st, self.exc("TypeError", C("object is not subscriptable")))
                raise Dead()
            if o.kind in ("dict", "ast"):
                if i[0] == "r" and self.obj(st, i).kind in ("list", "set", "dict") and not (self.obj(st, i).meta or {}).get("frozen"):
                    self.raise_(st, self.exc("TypeError", C("unhashable type")))
                    raise Dead()
                p, v = self.dict_find(st, l, L(i))
                if o.kind == "ast":
                    return ite(p, v, NONE) if v is not None else NONE
                if o.meta and "factory" in o.meta:
                    return self.branch(p, st, lambda s: v, lambda s: self._dd_new(s, l, i, o))
                self.raise_(st, self.exc("KeyError", L(i)), neg(p))
                return v
            if o.kind == "list":
                if i[0] == "t" and i[1] == "slice":
                    return self.with_exact(o.data, st, lambda vs, s: self._slice(vs, i, s))
                if i[0] == "c" and isinstance(i[2], int):
                    items = self.seq_items(st, o.data)
                    n = i[2]
                    # fast path: decided prefix
                    if n >= 0 and len(items) > n and all(g is TRUE for g, _ in items[:n + 1]):
                        return items[n][1]

                    def nth(vs, s):
                        if -len(vs) <= n < len(vs):
                            return vs[n]
                        self.raise_(s, self.exc("IndexError"))
                        raise Dead()
                    return self.with_exact(items, st, nth)
                raise Undecided("index %s" % show_leaf(i))
            if o.kind == "xml":
                return o.data["children"][i[2]][1]
            if o.kind == "inst":
                return self.call_method(L(l), "__getitem__", [L(i)], {}, st)
        if l[0] == "c":
            try:
                if i[0] == "c":
                    return C(l[2][i[2]])
                if i[0] == "t" and i[1] == "slice":
                    a = [x.leaf[2] for x in i[2:]]
                    return C(l[2][slice(*a)])
            except (TypeError, IndexError, KeyError, AttributeError) as e:
                self.raise_(st, self.exc(type(e).__name__))
                raise Dead()
        if l[0] == "t":
            if l[1] in ("tuple", "ntuple"):
                vs = l[2:] if l[1] == "tuple" else l[4:]
                if i[0] == "t" and i[1] == "slice":
                    a = [x.leaf[2] for x in i[2:]]
                    return T("tuple", *vs[slice(*a)])
                if i[0] == "c" and isinstance(i[2], int):
                    if -len(vs) <= i[2] < len(vs):
                        return vs[i[2]]
                    self.raise_(st, self.exc("IndexError"))
                    raise Dead()
            return self.models.term_getitem(self, st, l, i)
        if l[0] == "top":
            return self.top(l[1])
        if l[0] == "class" or l[0] == "ext":
            return L(l)     # generic alias
        raise Undecided("subscript of %s" % show_leaf(l))

    def _dd_new(self, st, l, i, o):
        v = self.call(o.meta["factory"], [], {}, st)
        self.dict_set(st, l, L(i), v)
        return v

    def _slice(self, vs, i, st):
        a = []
        for x in i[2:]:
            if x.var != INF or x.leaf[0] != "c":
                raise Undecided("slice bounds")
            a.append(x.leaf[2])
        return self.new_list(st, vs[slice(*a)])

    def setitem(self, base, ix, v, st):
        def f(l, s):
            def g(i, s2):
                if l[0] == "r":
                    o = self.obj(s2, l)
                    if o.kind == "dict":
                        self.dict_set(s2, l, L(i), v)
                        return NONE
                    if o.kind == "ast":
                        # tatsu AST: a second value for a non-None key makes a list
                        p, old = self.dict_find(s2, l, L(i))
                        if old is None:
                            self.dict_set(s2, l, L(i), v)
                            return NONE
                        has = conj(p, neg(self.is_(old, NONE, s2)))

                        def tolist(s3):
                            def h(lo, s4):
                                if lo[0] == "r" and self.obj(s4, lo).kind == "list" and \
                                        not (self.obj(s4, lo).meta or {}).get("closure"):
                                    cur = self.obj(s4, lo).data
                                    nl = self.new_seq(s4, cur + ((TRUE, v),))
                                else:
                                    nl = self.new_list(s4, [L(lo), v])
                                self.dict_set(s4, l, L(i), nl)
                                return NONE
                            return self.split(old, s3, h)
                        return self.branch(has, s2, tolist, lambda s3: self.dict_set(s3, l, L(i), v))
                    if o.kind == "list":
                        if i[0] == "t" and i[1] == "slice":
                            a = [x.leaf[2] for x in i[2:]]

                            def sl(vals, s3):
                                vals = list(vals)
                                new = self.iterate(v, s3)
                                if any(gg is not TRUE for gg, _ in new):
                                    raise Undecided("slice assignment")
                                vals[slice(*a)] = [x for _, x in new]
                                self.setdata(s3, l, tuple((TRUE, x) for x in vals))
                                return NONE
                            return self.with_exact(o.data, s2, sl)

                        def h(vals, s3):
                            if i[0] != "c" or not isinstance(i[2], int):
                                raise Undecided("list index")
                            if not -len(vals) <= i[2] < len(vals):
                                self.raise_(s3, self.exc("IndexError"))
                            vals = list(vals)
                            vals[i[2]] = v
                            self.setdata(s3, l, tuple((TRUE, x) for x in vals))
                            return NONE
                        return self.with_exact(o.data, s2, h)
                    if o.kind == "inst":
                        return self.call_method(L(l), "__setitem__", [L(i), v], {}, s2)
                raise Undecided("item write on %s" % show_leaf(l))
            return self.split(ix, s, g)
        self.split(base, st, f)

    def delitem(self, base, ix, st):
        def f(l, s):
            def g(i, s2):
                if l[0] == "r":
                    o = self.obj(s2, l)
                    if o.kind in ("dict", "ast"):
                        self.dict_del(s2, l, L(i))
                        return NONE
                    if o.kind == "list":
                        def h(vals, s3):
                            vals = list(vals)
                            try:
                                if i[0] == "t" and i[1] == "slice":
                                    del vals[slice(*[x.leaf[2] for x in i[2:]])]
                                else:
                                    del vals[i[2]]
                            except IndexError:
                                self.raise_(s3, self.exc("IndexError"))
                            self.setdata(s3, l, tuple((TRUE, x) for x in vals))
                            return NONE
                        return self.with_exact(o.data, s2, h)
                raise Undecided("del item on %s" % show_leaf(l))
            return self.split(ix, s, g)
        self.split(base, st, f)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression %s at %s:%d" % (type(e).__name__, fr.module.path, e.lineno))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return L(("ext", "builtins.Ellipsis"))
        return C(e.value)

    def e_Name(self, e, st, fr):
        name = e.id
        oid = fr.oid
        while oid is not None:
            o = st.heap[oid]
            if name in o.data:
                v = restrict(o.data[name], st.pc)
                for g, lf in leaves(v):
                    if lf == ("unset",):
                        if self.feasible(conj(st.pc, g)):
                            self.raise_(st, self.exc("UnboundLocalError", C(name)), g)
                        v = restrict(restrict(v, neg(g)), st.pc)
                return v
            if o.meta and o.meta.get("cls"):
                c = o.meta["cls"]
                if name in c.members:
                    m = c.members[name]
                    if isinstance(m, FuncInfo):
                        return L(("func", m, None))
                    return self.member_value(c, name, m, st)
            if o.meta and o.meta.get("fi") and isinstance(o.meta["fi"].node, ast.FunctionDef) and oid == fr.oid:
                fi = o.meta["fi"]
                if name in local_names(fi) and not self._is_freevar(o, name, st):
                    self.raise_(st, self.exc("UnboundLocalError", C(name)))
                    raise Dead()
            oid = (o.meta or {}).get("parent")
        v = self.global_lookup(fr.module, name, st)
        if v is not None:
            return v
        if name == "__name__":
            return C(fr.module.name)
        if name == "__class__" and fr.func and fr.func.cls:
            return L(("class", fr.func.cls))
        if hasattr(builtins, name):
            if name in ("True", "False", "None"):
                return C(getattr(builtins, name))
            return L(("ext", "builtins." + name))
        self.raise_(st, self.exc("NameError", C(name)))
        raise Dead()

    def _is_freevar(self, o, name, st):
        return name in (o.meta or {}).get("nonlocal", ())

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        return self.getattr(b, e.attr, st)

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            return self.getitem(b, self.slice_of(e.slice, st, fr), st)
        return self.getitem(b, self.ev(e.slice, st, fr), st)

    def e_Tuple(self, e, st, fr):
        def go(i, vals, s):
            if i == len(e.elts):
                return T("tuple", *vals)
            x = e.elts[i]
            if isinstance(x, ast.Starred):
                return self.with_exact(self.iterate(self.ev(x.value, s, fr), s), s, lambda vs, s2: go(i + 1, vals + list(vs), s2))
            return go(i + 1, vals + [self.ev(x, s, fr)], s)
        return go(0, [], st)

    def elts(self, elts, st, fr):
        vals = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.seq_items(st, self.iterate(self.ev(x.value, st, fr), st))
                if any(g is not TRUE for g, _ in items):
                    raise Undecided("star of gated sequence")
                vals.extend(v for _, v in items)
            else:
                vals.append(self.ev(x, st, fr))
        return vals

    def e_List(self, e, st, fr):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items.extend(self.iterate(self.ev(x.value, st, fr), st))
            else:
                items.append((TRUE, self.ev(x, st, fr)))
        return self.new_seq(st, items)

    def e_Set(self, e, st, fr):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items.extend(self.iterate(self.ev(x.value, st, fr), st))
            else:
                items.append((TRUE, self.ev(x, st, fr)))
        return self.new_set(st, items)

    def e_Dict(self, e, st, fr):
        o = self.new_dict(st, [])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.method(self, st, o, "update", [self.ev(v, st, fr)], {})
            else:
                kk = self.ev(k, st, fr)
                self.dict_set(st, o.leaf, kk, self.ev(v, st, fr))
        return o

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.ev(v.value, st, fr)
                if v.conversion in (114, 97):
                    x = self.split(x, st, lambda l, s: self.models.repr_(self, s, l))
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, st, fr)
                    x = self.models.fmt_spec(self, st, x, spec)
                parts.append(x)
        return self.models.mkfmt(self, st, parts)

    def e_FormattedValue(self, e, st, fr):
        return self.models.mkfmt(self, st, [self.ev(e.value, st, fr)])

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        return self.branch(c, st, lambda s: self.ev(e.body, s, fr), lambda s: self.ev(e.orelse, s, fr))

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.ev(e.values[i], s, fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, s)
            if isand:
                return self.branch(c, s, lambda s2: go(i + 1, s2), lambda s2: v)
            return self.branch(c, s, lambda s2: v, lambda s2: go(i + 1, s2))
        return go(0, st)

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return neg(self.truth(v, st))

        def f(l, s):
            if l[0] == "c" and isinstance(l[2], (int, float)):
                if isinstance(e.op, ast.USub):
                    return C(-l[2])
                if isinstance(e.op, ast.Invert):
                    return C(~l[2])
                return C(+l[2])
            if isinstance(e.op, ast.Invert):
                b = theory.as_bits(L(l))
                if b is not None:
                    return theory.from_bits(neg(b))
            if l[0] == "r":
                n = {ast.Invert: "__invert__", ast.USub: "__neg__", ast.UAdd: "__pos__"}[type(e.op)]
                return self.call_method(L(l), n, [], {}, s)
            if isinstance(e.op, ast.USub):
                return T("arith", "neg", L(l))
            return self.top("unary")
        return self.split(v, st, f)

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        return self.split(a, st, lambda la, s: self.split(b, s, lambda lb, s2: self.binop1(op, la, lb, s2)))

    DUNDER = {ast.BitAnd: "__and__", ast.BitOr: "__or__", ast.BitXor: "__xor__", ast.Add: "__add__",
              ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Mod: "__mod__", ast.LShift: "__lshift__",
              ast.RShift: "__rshift__", ast.FloorDiv: "__floordiv__", ast.Div: "__truediv__", ast.Pow: "__pow__",
              ast.MatMult: "__matmul__"}

    def binop1(self, op, la, lb, st):
        self.tick()
        name = self.DUNDER[type(op)]
        if la[0] == "c" and lb[0] == "c":
            try:
                r = getattr(__import__("operator"), name)(la[2], lb[2])
                return C(r)
            except TypeError:
                self.raise_(st, self.exc("TypeError"))
                raise Dead()
            except Exception as ex:
                self.raise_(st, self.exc(type(ex).__name__))
                raise Dead()
        if la[0] == "r":
            o = self.obj(st, la)
            if o.kind == "inst":
                c, m = self.classattr(o.cls, name)
                if m is not None:
                    return self.call_func(("func", m, None), [L(la), L(lb)], {}, st)
            else:
                return self.models.container_op(self, st, op, la, lb)
        if la[0] == "t" and isinstance(tag(la, "cls"), ClassInfo):
            c, m = tag(la, "cls").find(name)
            if m is not None:
                return self.call_func(("func", m, None), [L(la), L(lb)], {}, st)
        if lb[0] == "r":
            o = self.obj(st, lb)
            if o.kind == "inst":
                c, m = self.classattr(o.cls, "__r" + name[2:])
                if m is not None:
                    return self.call_func(("func", m, None), [L(lb), L(la)], {}, st)
            elif o.kind in ("set", "list"):
                return self.models.container_op(self, st, op, la, lb)
        if la[0] == "top" or lb[0] == "top":
            return self.top("operand")
        for x in (la, lb):
            if x[0] == "r" and self.obj(st, x).kind == "inst" and isinstance(self.obj(st, x).cls, ClassInfo) and \
                    not [b for b in self.obj(st, x).cls.ext_bases() if b not in ("builtins.object", "object")]:
                self.raise_(st, self.exc("TypeError"))
                raise Dead()
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if la in (TRUE.leaf, FALSE.leaf) and lb in (TRUE.leaf, FALSE.leaf):
                return C(bool(getattr(__import__("operator"), name)(la[2], lb[2])))
            ta, tb = tyof(la), tyof(lb)
            if ta == "int" or tb == "int" or (la[0] == "t" and la[1] == "bits"):
                x, y = theory.as_bits(L(la)), theory.as_bits(L(lb))
                if x is not None and y is not None:
                    return theory.from_bits({ast.BitAnd: conj, ast.BitOr: disj, ast.BitXor: xor}[type(op)](x, y))
                return self.top("bit operation")
            if isinstance(op, ast.BitOr) and la[0] in ("class", "ext", "c") and lb[0] in ("class", "ext", "c"):
                return T("tuple", L(la), L(lb))
            if la[0] == "t" and la[1] == "sym" and ta is None and not isinstance(tag(la, "cls"), ClassInfo):
                return atom(("op" + name, L(la), L(lb)))
        if isinstance(op, ast.Add):
            ta, tb = tyof(la), tyof(lb)
            if ta == "str" or tb == "str":
                if ta in ("str", None) and tb in ("str", None):
                    return self.models.mkfmt(self, st, [L(la), L(lb)])
            if ta == "tuple" and tb == "tuple" and la[1] == "tuple" and lb[1] == "tuple":
                return T("tuple", *(la[2:] + lb[2:]))
        if isinstance(op, ast.Mod) and tyof(la) == "str" and la[0] == "c":
            r = self.models.percent(self, st, la[2], lb)
            if r is not None:
                return r
        if isinstance(op, ast.Sub) and tyof(la) == "datetime" and tyof(lb) == "datetime":
            return T("timedelta", L(la), L(lb))
        if la[0] == "t" and la[1] == "tuple" and lb[0] in ("c",) and isinstance(op, ast.Mult):
            return T("tuple", *(la[2:] * lb[2]))
        if tyof(la) in ("int", "float") or tyof(lb) in ("int", "float"):
            return T("arith", type(op).__name__, L(la), L(lb))
        return self.top("operator %s" % name)

    def is_(self, a, b, st):
        def f(la):
            def g(lb):
                if la == lb:
                    return TRUE
                if la[0] == "r" and lb[0] == "r":
                    return FALSE
                if la[0] == "c" and lb[0] == "c":
                    return C(la[1] is lb[1] and la[2] == lb[2])
                if la[0] in ("class", "ext", "func", "mod") or lb[0] in ("class", "ext", "func", "mod"):
                    if la[0] == "t" and la[1] == "type" or lb[0] == "t" and lb[1] == "type":
                        x, y = (la, lb) if la[1] == "type" else (lb, la)
                        return atom(("typeis", x[2], L(y)))
                    if la[0] in ("top",) or lb[0] in ("top",):
                        return atom(("top", "is", self.top("is").leaf[2], 0))
                    return FALSE
                return theory.eq_leaf(self, st, la, lb)
            return mapleaf(restrict(b, st.pc), g)
        return restrict(mapleaf(restrict(a, st.pc), f), st.pc)

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        return self.compare_chain(left, list(zip(e.ops, e.comparators)), st, fr)

    def compare_chain(self, left, rest, st, fr):
        op, right = rest[0]
        rv = self.ev(right, st, fr)
        r = self.compare_op(op, left, rv, st)
        if len(rest) == 1:
            return r
        c = self.truth(r, st)
        return self.branch(c, st, lambda s: self.compare_chain(rv, rest[1:], s, fr), lambda s: FALSE)

    def compare_op(self, op, a, b, st):
        if isinstance(op, ast.Eq):
            return self.eq(a, b, st)
        if isinstance(op, ast.NotEq):
            return neg(self.eq(a, b, st))
        if isinstance(op, ast.Is):
            return self.is_(a, b, st)
        if isinstance(op, ast.IsNot):
            return neg(self.is_(a, b, st))
        if isinstance(op, ast.In):
            return self.contains(b, a, st)
        if isinstance(op, ast.NotIn):
            return neg(self.contains(b, a, st))

        def f(la, s):
            def g(lb, s2):
                name = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
                if self.has_method(s2, la, (name, "__lt__")):
                    o = self.obj(s2, la)
                    if o.cls.find(name)[0]:
                        return self.call_method(L(la), name, [L(lb)], {}, s2)
                    lt = self.truth(self.call_method(L(la), "__lt__", [L(lb)], {}, s2), s2)
                    eq = self.eq(L(la), L(lb), s2)
                    return {"__le__": disj(lt, eq), "__gt__": conj(neg(lt), neg(eq)), "__ge__": neg(lt)}[name]
                if la[0] == "r" and lb[0] == "r":
                    oa, ob = self.obj(s2, la), self.obj(s2, lb)
                    if oa.kind == ob.kind == "set":
                        x, y = (oa, ob) if name in ("__le__", "__lt__") else (ob, oa)
                        r = TRUE
                        for gg, v in x.data:
                            r = conj(r, disj(neg(gg), self.contains_seq(y.data, v, s2, True)))
                        if name in ("__lt__", "__gt__"):
                            r2 = TRUE
                            for gg, v in y.data:
                                r2 = conj(r2, disj(neg(gg), self.contains_seq(x.data, v, s2, True)))
                            r = conj(r, neg(r2))
                        return r
                r = theory.order(self, s2, name, la, lb)
                if r is None:
                    self.raise_(s2, self.exc("TypeError"))
                    raise Dead()
                return r
            return self.split(b, s, g)
        return self.split(a, st, f)

    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            o = st.heap[fr.oid]
            fi = fr.func
            oid = fr.oid
            while fi is not None and fi.cls is None and (st.heap[oid].meta or {}).get("parent"):
                oid = st.heap[oid].meta["parent"]
                fi = (st.heap[oid].meta or {}).get("fi")
            if fi is None or fi.cls is None:
                raise Undecided("super")
            first = (fi.node.args.posonlyargs + fi.node.args.args)[0].arg
            selfv = restrict(st.heap[oid].data[first], st.pc)
            if selfv.var != INF:
                raise Undecided("super of gated self")
            c = selfv.leaf[1] if selfv.leaf[0] == "class" else self.obj(st, selfv.leaf).cls
            return L(("super", fi.cls, c, selfv))
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            raise Undecided(e.func.id)
        fn = self.ev(e.func, st, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                items = self.iterate(self.ev(x.value, st, fr), st)
                items = self.seq_items(st, items)
                if any(g is not TRUE for g, _ in items):
                    return self._call_gated(e, fn, args, items, st, fr)
                args.extend(v for _, v in items)
            else:
                args.append(self.ev(x, st, fr))
        kwargs = {}
        gated = []
        for k in e.keywords:
            if k.arg is not None:
                if k.arg in kwargs:
                    self.raise_(st, self.exc("TypeError"))
                kwargs[k.arg] = self.ev(k.value, st, fr)
            else:
                d = restrict(self.ev(k.value, st, fr), st.pc)
                if d.var != INF:
                    return self.split(d, st, lambda l, s: self._call_kw(e, fn, args, dict(kwargs), l, s))
                if not (d.leaf[0] == "r" and self.obj(st, d.leaf).kind in ("dict", "ast")):
                    if d.leaf[0] == "c":
                        self.raise_(st, self.exc("TypeError"))
                    raise Undecided("** of %s" % show_leaf(d.leaf))
                for kk, g, v in self.obj(st, d.leaf).data:
                    g = restrict(g, st.pc)
                    if g is FALSE:
                        continue
                    if kk.leaf[0] != "c":
                        raise Undecided("** key")
                    if kk.leaf[2] in kwargs:
                        self.raise_(st, self.exc("TypeError", C("multiple values")))
                    if g is not TRUE:
                        gated.append((kk.leaf[2], g, v))
                    else:
                        kwargs[kk.leaf[2]] = v
        if gated:
            return self._call_gkw(fn, args, kwargs, gated, st, e)
        return self.call(fn, args, kwargs, st, e)

    def _call_gated(self, e, fn, args, items, st, fr):
        if e.keywords or not isinstance(e.args[-1], ast.Starred):
            raise Undecided("gated star call")
        return self.with_exact(items, st, lambda vs, s: self.call(fn, args + list(vs), {}, s, e))

    def _call_kw(self, e, fn, args, kwargs, l, st):
        if not (l[0] == "r" and self.obj(st, l).kind in ("dict", "ast")):
            raise Undecided("** value")
        gated = []
        for kk, g, v in self.obj(st, l).data:
            g = restrict(g, st.pc)
            if g is FALSE:
                continue
            if g is not TRUE:
                gated.append((kk.leaf[2], g, v))
            else:
                kwargs[kk.leaf[2]] = v
        return self._call_gkw(fn, args, kwargs, gated, st, e)

    def _call_gkw(self, fn, args, kwargs, gated, st, e):
        if not gated:
            return self.call(fn, args, kwargs, st, e)
        (k, g, v), rest = gated[0], gated[1:]
        kw2 = dict(kwargs)
        kw2[k] = v
        return self.branch(g, st, lambda s: self._call_gkw(fn, args, kw2, rest, s, e),
                           lambda s: self._call_gkw(fn, args, kwargs, rest, s, e))

    def e_Lambda(self, e, st, fr):
        return self.closure(self._lam(e, fr), st, fr)

    def _lam(self, e, fr):
        fi = getattr(e, "_fi", None)
        if fi is None:
            fi = FuncInfo(e, fr.module, "<lambda>")
            e._fi = fi
        return fi

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.setvar(e.target.id, v, st, fr)
        return v

    def e_Starred(self, e, st, fr):
        raise Undecided("starred")

    def comp(self, gens, st, fr, emit, head=None):
        """run nested generators; emit(state) at the innermost position"""
        foid = new_oid()
        st.heap[foid] = Obj("frame", None, {}, {"parent": fr.oid, "fi": None})
        f2 = Frame(foid, fr.func, fr.module)
        f2.returns = fr.returns

        def go(i, s):
            if i == len(gens):
                emit(s, f2)
                return
            g = gens[i]

            def run(v, s2):
                self.assign(g.target, v, s2, f2)

                def conds(k, s3):
                    if k == len(g.ifs):
                        return go(i + 1, s3)
                    c = self.cond(g.ifs[k], s3, f2)
                    return self.branch(c, s3, lambda s4: conds(k + 1, s4), lambda s4: None)
                conds(0, s2)
            self.each(head if i == 0 and head is not None else self.ev(g.iter, s, f2 if i else fr), s, run)
        go(0, st)

    def e_ListComp(self, e, st, fr):
        out = self.alloc(st, "list", ())

        def emit(s, f2):
            v = self.ev(e.elt, s, f2)
            self.setdata(s, out.leaf, self.obj(s, out.leaf).data + ((TRUE, v),))
        self.comp(e.generators, st, fr, emit)
        return out

    def e_GeneratorExp(self, e, st, fr):
        head = self.ev(e.generators[0].iter, st, fr)
        def runner(s, each):
            def emit(s2, f2):
                each(self.ev(e.elt, s2, f2), s2)
            self.comp(e.generators, s, fr, emit, head)
            return NONE
        return self.mkgen(st, runner)

    def e_SetComp(self, e, st, fr):
        out = self.alloc(st, "set", ())

        def emit(s, f2):
            self.set_add(s, out.leaf, self.ev(e.elt, s, f2))
        self.comp(e.generators, st, fr, emit)
        return out

    def e_DictComp(self, e, st, fr):
        out = self.alloc(st, "dict", ())

        def emit(s, f2):
            k = self.ev(e.key, s, f2)
            self.dict_set(s, out.leaf, k, self.ev(e.value, s, f2))
        self.comp(e.generators, st, fr, emit)
        return out

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        fr.yields(v, st)
        return NONE

    def e_YieldFrom(self, e, st, fr):
        r = self.each(self.ev(e.value, st, fr), st, fr.yields)
        return r if r is not None else NONE

    # ------------------------------------------------------------ entry
    def run(self, fn, args, kwargs, st):
        """call from outside: outcome as (Node, State); raises become leaves"""
        self.excs = [[]]
        self.in_try = 0
        self.stack = []
        outs = []
        s2 = st.fork()
        try:
            v = self.call(fn, list(args), dict(kwargs), s2)
            outs.append((s2, v))
        except Dead:
            pass
        except RecursionError:
            raise Undecided("analysis recursion")
        for es, ex in self.excs[0]:
            outs.append((es, mapleaf(ex, lambda l: L(("raise", l[2] if l[0] == "t" and l[1] == "exc" else "Exception")))))
        self.excs = []
        if not outs:
            raise Undecided("no outcome")
        s3 = State()
        v = self.join(s3, outs)
        return v, s3


def merge_keys(ka, kb):
    """an order which is the order of either, None if they disagree"""
    if ka == kb:
        return ka
    sa, sb = set(ka), set(kb)
    if [k for k in ka if k in sb] != [k for k in kb if k in sa]:
        return None
    r, i = [], 0
    for k in kb:
        if k in sa:
            j = ka.index(k, i)
            r += ka[i:j + 1]
            i = j + 1
        else:
            r.append(k)
    return r + ka[i:]


def const_key(k):
    return k.leaf is not None and k.leaf[0] == "c"


def local_names(fi):
    if fi.locals is None:
        r = set()
        for n in walk_own(fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                r.add(n.name)
        comp = set()
        for n in ast.walk(fi.node):
            if isinstance(n, ast.comprehension):
                for m in ast.walk(n.target):
                    if isinstance(m, ast.Name):
                        comp.add(m.id)
        fi.locals = r - comp
    return fi.locals


def merge_seq(g, a, b):
    if len(a) == len(b) and all(x[0] is y[0] for x, y in zip(a, b)):
        return tuple((x[0], ite(g, x[1], y[1])) for x, y in zip(a, b))
    n = 0
    while n < len(a) and n < len(b) and a[n][0] is b[n][0] and a[n][1] is b[n][1]:
        n += 1
    return tuple(a[:n]) + tuple((conj(g, x), v) for x, v in a[n:] if conj(g, x) is not FALSE) + \
        tuple((conj(neg(g), x), v) for x, v in b[n:] if conj(neg(g), x) is not FALSE)
