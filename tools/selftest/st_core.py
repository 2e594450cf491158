"""statements and values"""


def t_if(a, b):
    r = []
    if a:
        r.append(1)
    elif b:
        r.append(2)
    else:
        r.append(3)
    return r


def t_while(a, b, c):
    r, n = [], 0
    while n < 4:
        n += 1
        if a and n == 2:
            continue
        if b and n == 3:
            break
        r.append(n)
    else:
        r.append("else")
        if c:
            return r, "early"
    return r, n


def t_for_else(a, b):
    for x in (1, 2, 3):
        if x == 2 and a:
            break
    else:
        x = "none"
        if b:
            x = "b"
    return x


def t_loop_var(a):
    last = None
    for i, x in enumerate([5, 6, 7] if a else []):
        last = i, x
    return last


def t_try(a, b, c):
    log = []
    try:
        if a:
            raise ValueError("v")
        if b:
            {}["k"]
        log.append("body")
    except KeyError as e:
        log.append("key")
        if c:
            raise TypeError from e
    except (ValueError, IndexError):
        log.append("value")
    else:
        log.append("else")
    finally:
        log.append("finally")
    return log


def t_try_return(a, b):
    log = []

    def f():
        try:
            if a:
                return "try"
            if b:
                raise KeyError
        except KeyError:
            return "except"
        finally:
            log.append("f")
        return "end"
    return f(), log


def t_try_loop(a, b):
    out = []
    for x in (1, 2, 3):
        try:
            if a and x == 2:
                raise ValueError
            if b and x == 3:
                break
        except ValueError:
            continue
        finally:
            out.append("f%d" % x)
        out.append(x)
    return out


def t_nested_exc(a, b):
    try:
        try:
            if a:
                raise KeyError("x")
        except ValueError:
            return "inner"
        if b:
            raise ValueError("y")
    except LookupError:
        return "outer"
    except ValueError as e:
        return str(e)
    return "none"


def t_reraise(a):
    try:
        try:
            raise ValueError
        except ValueError:
            if a:
                raise
            return "kept"
    except ValueError:
        return "again"


def t_alias(a):
    x = [1]
    y = [2]
    z = x if a else y
    z.append(3)
    return x, y, z


def t_alias_dict(a, b):
    d = {4: [], 6: []}
    for v in (a, b):
        d[4 if v else 6].append(v)
    return d, list(d.values()), [x for l in d.values() for x in l]


def t_swap(a):
    x, y = 1, 2
    if a:
        x, y = y, x
    return x, y


def t_star(a):
    l = [1, 2, 3] if a else [1, 2]
    x, *y = l
    *p, q = l
    return x, y, p, q, [*l, 9], (*l,), {**{"a": 1}, "b": 2}


def t_augmented(a):
    l = m = [1]
    l += [2]
    n = 1
    n += 2 if a else 3
    s = "x"
    s *= 3
    t = (1,)
    u = t
    t += (2,)
    return l, m, n, s, t, u


def t_closure(a):
    n = 0

    def inc(by=1):
        nonlocal n
        n += by
        return n
    inc()
    if a:
        inc(5)
    return n, inc()


def t_late_binding():
    fs = [lambda: i for i in range(3)]
    gs = [lambda i=i: i for i in range(3)]
    return [f() for f in fs], [g() for g in gs]


def t_default_mutable(a):
    def f(x, acc=[]):
        acc.append(x)
        return acc
    f(1)
    if a:
        f(2)
    return list(f(3))


def t_kwargs(a):
    def f(x, *args, y=2, **kw):
        return x, args, y, kw
    k = {"y": 3, "z": 4} if a else {"q": 1}
    return f(1, 2, 3, **k), f(*[1]), f(x=5)


def t_posonly():
    def f(a, /, b, *, c=3):
        return a, b, c
    try:
        f(a=1, b=2)
    except TypeError:
        return f(1, b=2), "type"


def t_wrong_call(a):
    def f(x):
        return x
    return f(1, 2) if a else f()


def t_walrus(a):
    l = [1, 2, 3]
    r = []
    it = iter(l)
    while (x := next(it, None)) is not None:
        r.append(x)
    if (y := a):
        r.append(y)
    return r, x, [z for w in l if (z := w * 2) > 2]


def t_generator(a):
    def g(n):
        for i in range(n):
            if a and i == 1:
                continue
            yield i
        yield "end"

    def h():
        yield from g(3)
        yield from ["x"]
    return list(g(2)), list(h()), sum(1 for _ in h())


def t_generator_return(a):
    def g():
        yield 1
        if a:
            return
        yield 2
    return list(g()), next(g()), next(iter(g()))


def t_generator_lazy(a):
    log = []

    def g():
        for i in range(3):
            log.append(i)
            yield i
    for x in g():
        log.append("got %d" % x)
        if a and x == 1:
            break
    return log


def t_generator_any(a):
    log = []

    def check(x):
        log.append(x)
        return x == 2 and a
    return any(check(x) for x in (1, 2, 3)), log


def t_match_value(a, b):
    v = "one" if a else ("two" if b else 3)
    match v:
        case "one" | "uno":
            return 1
        case "two":
            return 2
        case int() as n if n > 2:
            return n
    return None


def t_match_seq(a, b):
    v = [1, 2, 3] if a else ((1,) if b else [])
    match v:
        case []:
            return "empty"
        case [x]:
            return "one", x
        case [x, *rest]:
            return x, rest


def t_match_map(a):
    d = {"k": 1, "n": {"m": [2, 3]}} if a else {"k": 5}
    match d:
        case {"n": {"m": [p, q]}, **rest}:
            return p, q, rest
        case {"k": v}:
            return v


class Pt:
    __match_args__ = ("x", "y")

    def __init__(self, x, y):
        self.x = x
        self.y = y


def t_match_class(a, b):
    p = Pt(0 if a else 1, 2 if b else 3)
    match p:
        case Pt(0, y):
            return "zero", y
        case Pt(x=1, y=2):
            return "one two"
        case Pt(y=y):
            return y


def t_ternary_none(a, b):
    x = None if a else 0
    return x or "d", x is None, x if x is not None else "n", (b and x), (b or x), not x


def t_chain(a):
    x = 3 if a else 5
    return 1 < x < 4, 1 <= x <= 5 != 6, x in (3, 4), x not in [3]


def t_strings(a):
    s = "Hello" if a else "World wide"
    return (s.lower(), s[::-1], s[1:3], s.split(), s.partition("l"), s.rpartition("l"), s.startswith(("He", "x")),
            s.replace("l", "L", 1), "%s-%d" % (s, 3), "{0}{a!r}".format(s, a=1), f"{s:>12}|{1:03d}|{s!r}", s.find("o"),
            s.count("l"), s.title(), s.center(14, "*"), s.isalpha(), ",".join(s), s.index("o"), s.strip("Hd"),
            s.removeprefix("He"), s.splitlines(), s.zfill(12), "a" < s, s.swapcase(), s.upper().casefold())


def t_string_edit(a):
    s = "a,b;c" if a else "x"
    return s.split(",", 1), s.rsplit(";", 1), s.translate({ord(","): None}), s.expandtabs(), s.encode(), s.ljust(7, "."), s * 2


def t_ints(a):
    n = 13 if a else 6
    return (n // 4, n % 4, n ** 2, n & 6, n | 8, n ^ 5, ~n, n << 2, n >> 1, -n, divmod(n, 4), n.bit_length(), bin(n), hex(n),
            int("12"), int("ff", 16), abs(-n), min(n, 7), max([n, 8]), round(n / 4), n / 2, pow(n, 2, 5), bool(n), n.to_bytes(2, "big"))


def t_dict(a, b):
    d = {"x": 1}
    if a:
        d["y"] = 2
    if b:
        d.pop("x")
    e = dict(d)
    e.setdefault("z", []).append(1)
    return (d, e, d.get("x"), d.get("y", 0), "x" in d, len(d), list(d), sorted(d.items()), d == {"x": 1},
            {v: k for k, v in d.items()}, d | {"q": 1})


def t_dict_order(a):
    d = {}
    if a:
        d["b"] = 1
    d["a"] = 2
    d["b"] = 3
    return list(d.items()), list(reversed(d)), d.popitem()


def t_dict_del(a):
    d = {"x": 1, "y": 2}
    del d["x"]
    if a:
        del d["x"]
    return d


def t_dict_views(a):
    d = {"x": 1, "y": 2}
    e = {"y": 2} if a else {"z": 1}
    return sorted(d.keys() & e.keys()), sorted(d.keys() - e.keys()), d.keys() >= e.keys(), sorted(d.keys() | e)


def t_dict_update(a):
    d = dict(x=1)
    d.update({"y": 2}, z=3)
    d.update([("w", 4)] if a else ())
    d |= {"x": 0}
    return d, dict.fromkeys("ab", 0), dict(zip("ab", (1, 2)))


def t_list(a):
    l = [3, 1, 2]
    if a:
        l.insert(0, 9)
    m = l.copy()
    m.sort()
    l.reverse()
    m.extend(x for x in (7, 8))
    m.remove(7)
    return l, m, m.index(2), m.count(8), l.pop(), l.pop(0), l, l + m, l * 2, m[-1], m[1:], m[::2], len(m), 2 in l


def t_list_assign(a):
    l = [1, 2, 3, 4]
    l[0] = 9
    l[1:3] = ["x"] if a else []
    del l[-1]
    return l


def t_list_sort(a):
    l = [("b", 1), ("a", 2), ("a", 1)]
    if a:
        l.append(("c", 0))
    return (sorted(l), sorted(l, key=lambda x: x[1]), sorted(l, reverse=True), min(l), max(l, key=lambda x: x[1]),
            sorted(l, key=lambda x: (-x[1], x[0])))


def t_set(a):
    s = {1, 2}
    if a:
        s.add(3)
    t = {2, 3}
    return s | t, s & t, s - t, s ^ t, s <= t, {2} < s, len(s), 3 in s, s.isdisjoint({9}), sorted(s), s.union([7]), s == {1, 2}


def t_set_mut(a):
    s = set("abc")
    s.discard("z")
    s -= {"a"} if a else set()
    s |= {"q"}
    s.update(["r", "s"])
    s.remove("r")
    return s, frozenset(s) == s


def t_comp(a):
    l = [1, 2, 3, 4] if a else [4]
    return [x * y for x in l for y in l if x < y], {x: x * x for x in l if x % 2}, {x % 2 for x in l}, tuple(x for x in l)


def t_builtins(a):
    l = [1, 2, 3] if a else [0]
    return (all(l), any(l), sum(l), sum(l, 10), list(map(str, l)), list(filter(None, l)), list(zip(l, "ab")), list(enumerate(l, 1)),
            list(reversed(l)), list(range(5, 0, -2)), isinstance(l, (list, str)), callable(len), len("abc"), list(map(lambda p, q: p + q, l, l)))


def t_zip_strict(a):
    try:
        return list(zip([1, 2], [3] if a else [3, 4], strict=True))
    except ValueError:
        return "strict"


def t_iter(a):
    it = iter([1, 2, 3] if a else [1])
    x = next(it)
    y = next(it, "none")
    rest = list(it)
    return x, y, rest, list(it)


def t_next_raises(a):
    it = iter([1] if a else [])
    try:
        return next(it)
    except StopIteration:
        return "stop"


def t_zip_same_iter():
    it = iter([1, 2, 3, 4])
    return list(zip(it, it))


def t_unpack_error(a):
    try:
        x, y = (1, 2) if a else (1,)
        return x, y
    except ValueError:
        return "value"


def t_assert(a):
    try:
        assert a, "message"
    except AssertionError as e:
        return str(e)
    return "fine"


def t_index_error(a):
    l = [1]
    try:
        return l[0 if a else 3]
    except IndexError:
        return "index"


def t_type_errors(a):
    r = []
    for f in (lambda: 1 + "x", lambda: None.x, lambda: len(3), lambda: "x"[None], lambda: {}[[]], lambda: int("z"), lambda: [][0]):
        try:
            f()
        except (TypeError, AttributeError, ValueError, IndexError) as e:
            r.append(type(e).__name__)
    return r if a else len(r)


def t_global(a):
    return COUNT[0] + (1 if a else 2), NAMES["x"]


COUNT = [3]
NAMES = {"x": "y"}


def t_del(a):
    x = 1
    if a:
        del x
    try:
        return x
    except NameError:
        return "gone"


def t_with(a, b):
    log = []

    class M:
        def __enter__(self):
            log.append("in")
            return "v"

        def __exit__(self, t, v, tb):
            log.append(t.__name__ if t else "out")
            return a
    try:
        with M() as m:
            log.append(m)
            if b:
                raise ValueError
    except ValueError:
        log.append("raised")
    return log


def t_with_return(a):
    log = []

    class M:
        def __enter__(self):
            return self

        def __exit__(self, *x):
            log.append(x[0] is None)

    def f():
        for i in range(2):
            with M():
                if a:
                    return i
        return "end"
    return f(), log


def t_string_format(a):
    w = 4 if a else 6
    return f"{'x':<{w}}|{3.14159:.2f}|{10:b}|{255:x}|{'a'!s}|{{}}", "%5s|%-5s|%05d|%x" % ("a", "b", 42, 255), "{:,}".format(12345), "{a[0]}{b.x}".format(a=[1], b=Pt(7, 8))


def t_concat_types(a):
    return str(1) + "a" + repr("b") + str(None) + str(True) + str([1, "x"]) + str({"a": 1}) + str((1,))


def t_bool_ops(a, b, c):
    return a and b or c, not (a or b), a ^ b, a == b, a != c, [a, b, c].count(True), sum([a, b, c]), int(a) + b, max(a, b), (a, b) < (b, c)


def t_identity(a):
    x = [1]
    y = x if a else [1]
    return x is y, x == y, x is not None, None is None


def t_lambda_default(a):
    f = (lambda x, y=1: x + y) if a else (lambda x: x)
    return f(3)


def t_recursion(a):
    def fac(n):
        return 1 if n < 2 else n * fac(n - 1)

    def flat(x):
        return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
    return fac(5), flat([1, [2, [3, 4] if a else 5]])
