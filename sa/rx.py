"""Regular expressions over word classes.

A word class ("shape") is a sequence of items (charset, lo, hi).  `match`
decides a Python pattern against a sequence of items for all words of the
classes at once: the answer is a match with a fixed end, no match, or Undecided
when words of the class behave differently.
"""
import re
import sys
import warnings

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
        import re._parser as sre
        import re._constants as K
    except ImportError:
        import sre_parse as sre
        import sre_constants as K

from .core import Undecided, tag

VARIANT = [0]

# ASCII and some others: letters, blanks, line ends, a byte order mark and what is left of one
ALL = frozenset([chr(i) for i in range(256)] + list("\u2013\u6771\u4eac\ufeff\u2028"))
_CAT = {}


def category(c):
    if c not in _CAT:
        p = {K.CATEGORY_DIGIT: r"\d", K.CATEGORY_NOT_DIGIT: r"\D", K.CATEGORY_SPACE: r"\s", K.CATEGORY_NOT_SPACE: r"\S",
             K.CATEGORY_WORD: r"\w", K.CATEGORY_NOT_WORD: r"\W"}[c]
        r = re.compile(p)
        _CAT[c] = frozenset(x for x in ALL if r.match(x))
    return _CAT[c]


def charset(op, av, flags=0):
    """set of a one-character node, or None"""
    if op is K.LITERAL:
        return frozenset(chr(av))
    if op is K.NOT_LITERAL:
        return ALL - {chr(av)}
    if op is K.ANY:
        return ALL if flags & re.DOTALL else ALL - {"\n"}
    if op is K.IN:
        neg = False
        s = set()
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                s.add(chr(a))
            elif o is K.RANGE:
                s.update(chr(i) for i in range(a[0], a[1] + 1))
            elif o is K.CATEGORY:
                s |= category(a)
            else:
                raise Undecided("pattern set")
        return ALL - s if neg else frozenset(s)
    return None


_shapes = {}


def shape(rx):
    """items of a simple pattern: one-character nodes and repeats of them"""
    if rx not in _shapes:
        out = []
        for op, av in sre.parse(rx):
            if op is K.MAX_REPEAT:
                lo, hi, body = av
                (o, a), = list(body)
                cs = charset(o, a)
                if lo == hi:
                    out.extend([(cs, 1, 1)] * lo)
                else:
                    out.append((cs, lo, int(hi)))
            else:
                out.append((charset(op, av), 1, 1))
        _shapes[rx] = tuple(out)
    return _shapes[rx]


def items_of(leaf):
    """word class of a symbol in the current variant, and a salt; None without one"""
    r = tag(leaf, "shapes")
    if not r:
        return None
    k = sum(map(ord, leaf[2]))
    return shape(r[(VARIANT[0] + k) % len(r)]), k


def bounds(items):
    """least and greatest number of a class of digits"""
    if not all(cs <= frozenset("0123456789") and cs for cs, lo, hi in items):
        return None
    lo = "".join(min(cs) * l for cs, l, h in items)
    hi = "".join(max(cs) * h for cs, l, h in items)
    # a class starting with an optional part still has its longest word as maximum
    return int(lo or "0"), int(hi or "0")


def sample(items, salt=0):
    """a member, not at the edge of the class where there is room"""
    s = ""
    for i, (cs, lo, hi) in enumerate(items):
        n = max(lo, min(hi, lo + 2, 3))
        l = sorted(cs)
        s += "".join(l[(salt + 3 * j + i + len(l) // 2) % len(l)] for j in range(n))
    return s


def member(items, word):
    p = "".join("[%s]{%d,%d}" % ("".join(re.escape(c) for c in sorted(cs)), lo, hi) for cs, lo, hi in items)
    return re.fullmatch(p, word) is not None


class Unclear(Exception):
    """the answer depends on the word; item and set on which to divide the class"""

    def __init__(self, item=None, cs=None):
        self.item, self.cs = item, cs


_parsed = {}


_memo = {}
LIMIT = 400


def match(pat, items, flags=re.MULTILINE, before="\n"):
    """items: [(charset, lo, hi, end)] -> end of the match or None"""
    if pat not in _parsed:
        _parsed[pat] = sre.parse(pat, flags)
    key = (pat, tuple(items), flags, before)
    if key not in _memo:
        budget = [LIMIT]
        try:
            _memo[key] = _decide(_parsed[pat], tuple(items), before, budget)
        except (Unclear, RecursionError):
            _memo[key] = "unclear"
    r = _memo[key]
    if r == "unclear":
        raise Undecided("pattern %r does not treat all words of a class alike" % pat)
    return r


def _decide(p, items, before, budget):
    budget[0] -= 1
    if budget[0] < 0:
        raise Unclear()
    try:
        r = _seq(list(p), items, (before, None), p.state.flags, lambda rest, last: (rest, last))
        if r is None:
            return None
        if r[1][1] is None and r[0] != items:
            raise Unclear()
        return r[1][1] if r[0] != items else "empty"
    except Unclear as e:
        parts = divide(items, e)
        if not parts:
            raise
    rs = {_decide(p, x, before, budget) for x in parts}
    if len(rs) != 1:
        raise Unclear()
    return rs.pop()


def divide(items, e):
    """smaller classes that together cover the words of the given ones"""
    if e.item is None:
        return None
    end = e.item[3]
    for i, x in enumerate(items):
        if x[3] == end and x[0] == e.item[0] and (x is e.item or x[1] >= e.item[1]):
            break
    else:
        return None
    cs, lo, hi, end = items[i]
    if lo == hi == 1:
        if e.cs is None or cs <= e.cs or not (cs & e.cs):
            return None
        new = [[(cs & e.cs, 1, 1, end)], [(cs - e.cs, 1, 1, end)]]
    elif hi <= 16:
        new = [[(cs, 1, 1, None if isinstance(end, int) else end)] * (n - 1) + [(cs, 1, 1, end)] if n else []
               for n in range(lo, hi + 1)]
        # unfinished positions inside the word keep an identity so that they can be divided again
        new = [[(c, l, h, x if x is not None else (end, j)) for j, (c, l, h, x) in enumerate(w)] for w in new]
    else:
        return None
    return [items[:i] + tuple(w) + items[i + 1:] for w in new]


def head(items, cs):
    """does the next character lie in cs?  True / False / None (depends)"""
    if not items:
        return False
    s, lo, hi, end = items[0]
    if lo == 0:
        r = head(items[1:], cs)
        q = True if s <= cs else False if not (s & cs) else None
        return r if r is q else None
    if s <= cs:
        return True
    if not (s & cs):
        return False
    return None


def take(items):
    """drop one character (of the first item, which has lo >= 1)"""
    s, lo, hi, end = items[0]
    if lo == 0:
        raise Unclear(items[0])
    if hi == 1:
        return items[1:], end
    return ((s, lo - 1, hi - 1, end),) + items[1:], None


def _seq(nodes, items, last, fl, k):
    """last = (previous character or None if unknown, position or None inside a word)"""
    if not nodes:
        return k(items, last)
    (op, av), rest = nodes[0], nodes[1:]
    cs = charset(op, av, fl)
    if cs is not None:
        h = head(items, cs)
        if h is None:
            raise Unclear(items[0], cs)
        if not h:
            return None
        s = items[0][0]
        it, end = take(items)
        return _seq(rest, it, (next(iter(s)) if len(s) == 1 else "x" if "\n" not in s else None, end), fl, k)
    if op is K.SUBPATTERN:
        g, add, dele, body = av
        f2 = (fl | add) & ~dele
        return _seq(list(body), items, last, f2, lambda it, la: _seq(rest, it, la, fl, k))
    if op is K.BRANCH:
        for alt in av[1]:
            r = _seq(list(alt), items, last, fl, lambda it, la: _seq(rest, it, la, fl, k))
            if r is not None:
                return r
        return None
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, body = av
        body = list(body)
        if len(body) == 1 and op is K.MAX_REPEAT:
            cs = charset(body[0][0], body[0][1], fl)
            if cs is not None:
                return _run(cs, lo, hi, items, last, lambda it, la: _seq(rest, it, la, fl, k))

        def step(n, it, la):
            def more():
                if n < hi:
                    def k2(i2, l2):
                        if i2 == it:
                            return None
                        return step(n + 1, i2, l2)
                    return _seq(body, it, la, fl, k2)
                return None
            if n < lo:
                return more()
            if op is K.MAX_REPEAT:
                r = more()
                return r if r is not None else _seq(rest, it, la, fl, k)
            r = _seq(rest, it, la, fl, k)
            return r if r is not None else more()
        return step(0, items, last)
    if op is K.AT:
        if av in (K.AT_BEGINNING,):
            ok = last[0] == "\n"
            if last[0] is None:
                raise Unclear()
        elif av is K.AT_END:
            if items and items[0][1] == 0:
                raise Unclear()
            h = head(items, frozenset("\n")) if items else True
            if h is None:
                raise Unclear()
            ok = h
        elif av is K.AT_END_STRING:
            ok = not items
        elif av is K.AT_BEGINNING_STRING:
            ok = last[1] == 0
        else:
            raise Unclear()
        return _seq(rest, items, last, fl, k) if ok else None
    if op in (K.ASSERT, K.ASSERT_NOT):
        d, body = av
        if d < 0:
            raise Unclear()
        r = _seq(list(body), items, last, fl, lambda it, la: (it, la))
        if (r is not None) != (op is K.ASSERT):
            return None
        return _seq(rest, items, last, fl, k)
    raise Unclear()


def _run(cs, lo, hi, items, last, k):
    """greedy repeat of one character set"""
    stops = [(0, 0, items, last)]       # (fewest, most characters so far, rest, last)
    a = b = 0
    it = items
    la = last
    inside = []                          # parallel: variable item just before the stop, or None
    while it:
        s, l, h, end = it[0]
        if hi is not K.MAXREPEAT and b >= hi:
            break
        if s <= cs:
            if hi is not K.MAXREPEAT and b + h > hi:
                raise Unclear(it[0])
            inside.append(None if l == h == 1 else it[0])
            a, b = a + l, b + h
            la = (next(iter(s)) if len(s) == 1 else "x" if "\n" not in s else None, end)
            it = it[1:]
            stops.append((a, b, it, la))
        elif not (s & cs):
            if l == 0:
                raise Unclear(it[0])
            break
        else:
            raise Unclear(it[0], cs)
    for n in range(len(stops) - 1, -1, -1):
        x, y, it, la = stops[n]
        if x < lo <= y:
            raise Unclear(next((i for i in inside[:n] if i is not None), None))
        if x >= lo:
            r = k(it, la)
            if r is not None:
                return r
        elif y < lo:
            # fewer characters than needed from here on, but maybe not inside the item after this stop
            return None
        if n and inside[n - 1] is not None:
            s, l, h, end = inside[n - 1]
            # part of a word: must not be able to go on from any place inside
            if stops[n - 1][1] + h >= lo and h > 1:
                r = k(((s, 1, h, end),) + it, ("x", None))
                if r is not None:
                    raise Unclear(inside[n - 1])
    return None
