def t_posonly_ok():
    def f(a, /, b, *, c=3):
        return a, b, c
    return f(1, b=2)


def t_update1(a):
    d = {}
    d.update({"y": 2}, z=3)
    return d


def t_update2(a):
    d = {}
    d.update([("w", 4)] if a else ())
    return d


def t_update3(a):
    d = dict(x=1)
    d |= {"x": 0}
    return d


def t_fromkeys():
    return dict.fromkeys("ab", 0), dict.fromkeys(["x"])


def t_dictzip():
    return dict(zip("ab", (1, 2)))


def t_sort1(a):
    l = [3, 1, 2]
    if a:
        l.insert(0, 9)
    l.sort()
    return l


def t_rev1(a):
    l = [3, 1, 2]
    if a:
        l.insert(0, 9)
    l.reverse()
    return l


def t_copy(a):
    l = [3, 1]
    m = l.copy()
    n = l[:]
    l.append(2)
    return l, m, n, list(l) == l


def t_type1():
    try:
        return 1 + "x"
    except TypeError:
        return "t"


def t_type2():
    try:
        return None.x
    except AttributeError:
        return "t"


def t_type3():
    try:
        return len(3)
    except TypeError:
        return "t"


def t_type5():
    try:
        return {}[[]]
    except TypeError:
        return "t"


def t_type6():
    try:
        return int("z")
    except ValueError:
        return "t"


def t_type7():
    try:
        return iter(3)
    except TypeError:
        return "t"


def t_mod_tuple(a):
    return "%s-%d" % ("x" if a else "y", 3), "%s" % a, "%(k)s" % {"k": 1}


def t_divmod(a):
    return divmod(13 if a else 6, 4)


def t_dict_eq(a):
    d = {"x": 1}
    if a:
        d["y"] = 2
    return d == {"x": 1}, d != {}


def t_views(a):
    d = {"x": 1, "y": 2}
    e = {"y": 2} if a else {"z": 1}
    return d.keys() & e.keys(), d.keys() - e.keys(), "y" in d.keys() & e.keys()


def t_min_key(a):
    l = [("b", 1), ("a", 2)]
    if a:
        l.append(("c", 0))
    return min(l), max(l, key=lambda x: x[1]), min([3, 1, 2]), max(1, 5, 3), min([], default=7)


def t_star_gated(a):
    l = [1, 2, 3] if a else [1, 2]
    x, *y = l
    *p, q = l
    return x, y, p, q


def t_star_use(a):
    l = [1, 2, 3] if a else [1, 2]
    return [*l, 9], (*l,), {*l}


def t_slice_assign(a):
    l = [1, 2, 3, 4]
    l[1:3] = ["x"]
    l[:0] = [0] if a else []
    del l[-1]
    return l


def t_translate(a):
    s = "a,b;c" if a else "x"
    return s.translate({ord(","): None}), s.expandtabs(), s.rsplit(";", 1)


def t_matchmap(a):
    d = {"k": 1, "n": 2} if a else {"k": 5}
    match d:
        case {"n": p, **rest}:
            return p, rest
        case {"k": v}:
            return v


def t_getters(a, b, c, d):
    import operator

    x = {"p": 1 if a else 2, "q": 3 if b else 4}
    f = operator.itemgetter("p", "q")
    g = operator.methodcaller("get", "z", 9)
    h = operator.methodcaller("upper")
    return [f(x), list(map(operator.itemgetter("q"), [x])), g(x), h("k" if c else "l"), operator.getitem(x, "p" if d else "q")]


def t_descriptors_assigned(a, b, c, d):
    class A:
        kind = "A"
        s = staticmethod(lambda x, y: (x, y))
        p = property(lambda self: self.v)
        m = lambda self, x: (self.v, x)
        c = classmethod(lambda cls, x: (cls.kind, x))

        def __init__(self, v):
            self.v = v

        def n(self):
            return self.s(self.v, 2)
        o = n

    class B(A):
        kind = "B"

    x = (A if a else B)(3 if b else 4)
    return [x.s(1, 2), A.s(3, 4), x.p, x.m(5), x.c(6), B.c(7), x.n(), x.o(), A.m(x, 1)]
