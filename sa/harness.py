"""Cases: one entry point, one abstract argument list, both trees."""
import os
import time
import zlib

from .dd import *
from .core import *
from .interp import Interp
from . import theory, compare, rx
from .effects import kind_of

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ACLTK_REPO", "/repo")
_progs = {}


def program(which):
    p = _progs.get(which)
    if p is None:
        drv = os.path.join(VERIF, "spec", "drv")
        extra = {"drv_" + f[:-3]: os.path.join(drv, f) for f in os.listdir(drv) if f.endswith(".py")}
        root = os.path.join(REPO, "lib") if which == "repo" else os.path.join(VERIF, "spec")
        p = _progs[which] = Program(root, extra)
    return p


def node(x):
    """python value / Node -> Node"""
    if isinstance(x, Node):
        return x
    if isinstance(x, (tuple, list)):
        return T("tuple", *[node(i) for i in x])
    return C(x)


class Result:
    def __init__(self):
        self.status = "same"    # same | differs | undecided | broken
        self.text = ""
        self.reached = set()
        self.cond = None
        self.calls = 0
        self.rejects = False    # the reference always raises


DEEP = [False]      # the program's printing is followed


def outcome(which, mod, fn, args, prep=None, effects=False, reverse=False):
    ip = Interp(program(which))
    ip.reverse_sets = reverse
    ip.deep = DEEP[0] and which == "repo"
    m = ip.prog.module(mod)
    if m is None:
        raise MissingAnchor(mod)
    f = ip.prog.lookup(m, fn)
    if f is None:
        raise MissingAnchor("%s.%s" % (mod, fn))
    st = State()
    if prep:
        prep(ip, st)
    v, s = ip.run(f, [a(ip, st) if callable(a) else node(a) for a in args], {}, st)
    return ip, v, s


_refcache = {}


def entry(which, cls, method, args):
    """a class method of the program itself"""
    ip = Interp(program(which))
    ip.deep = DEEP[0] and which == "repo"
    c = ip.prog.cls(*cls)
    if c is None:
        raise MissingAnchor(".".join(cls))
    st = State()
    f = ip.getattr(L(("class", c)), method, st)
    v, s = ip.run(f, args, {}, st)
    return ip, v, s


def text(parts):
    """abstract text: constant fragments and word classes"""
    out = []
    for p in parts:
        if isinstance(p, Node) and p.leaf[0] == "t":
            out.append(p)
        else:
            p = p.leaf[2] if isinstance(p, Node) else p
            if out and out[-1].leaf[0] == "c":
                out[-1] = C(out[-1].leaf[2] + p)
            else:
                out.append(C(p))
    return out[0] if len(out) == 1 else T("fmt", *out)


def show_text(parts):
    return "".join("<%s>" % p.leaf[2] if isinstance(p, Node) and p.leaf[0] == "t" else p for p in parts)


def run_text(cls, parts, mod, fn, args, identity=(), ignore=(), variants=(0,), assume=TRUE, method="fromString",
             call=None, effects=False, extra=(), name=""):
    """what the program makes of a text is what the reference builds from its description

    variants: which class of words each slot ranges over, counted from a place that depends on the name"""
    tot = Result()
    shift = zlib.crc32(name.encode()) % 420
    for v in variants:
        rx.VARIANT[0] = v + shift
        _refcache.clear()
        try:
            if CALL[0] and not call:
                call = (CALL[0][0], ())
                fn, args = CALL[0][1], (C(fn),) + tuple(args)
            if PRINTED[0]:
                return run_printed(parts, call)
            ipr, vr, sr = outcome("spec", mod, fn, args)
            r = Result()
            r.rejects = all(l[0] == "raise" for _, l in leaves(vr))
            try:
                if call:
                    ipc, vc, sc = outcome("repo", mod, call[0], [text(parts)] + list(call[1]))
                else:
                    ipc, vc, sc = entry("repo", cls, method, [text(parts)] + list(extra))
            except Undecided as e:
                r.status, r.text = "undecided", str(e)
            else:
                judge(r, ipr, vr, sr, ipc, vc, sc, assume, identity, ignore, effects)
                if not ipc.texts and not r.rejects and r.status == "same":
                    r.status, r.text = "undecided", "nothing was parsed"
        finally:
            rx.VARIANT[0] = 0
        tot.reached |= r.reached
        tot.calls += r.calls
        tot.rejects = r.rejects
        if r.status != "same" and tot.status != "differs":
            tot.status, tot.text = r.status, r.text
    return tot


PRINTED = [False]
CALL = [None]       # reads instead of the entry point


def run_printed(parts, call):
    """what the text becomes can be printed"""
    fn, rest = {None: ("configuration", ()), "read_pfsense": ("pfsense_configuration", call and call[1]),
                "run_query": ("query", call and call[1])}[call and call[0]]
    return never_raises("drv_show", fn, [text(parts)] + list(rest))


def never_raises(mod, fn, args):
    r = Result()
    DEEP[0] = True
    try:
        ip, v, s = outcome("repo", mod, fn, args)
    except Undecided as e:
        r.status, r.text = "undecided", str(e)
        return r
    finally:
        DEEP[0] = False
    r.reached = {f for f in ip.reached if not f.module.name.startswith("drv_")}
    r.calls = ip.calls
    bad, why = FALSE, []
    for g, l in leaves(v):
        if l[0] == "raise":
            bad = disj(bad, g)
            why.append((g, l))
    if bad is not FALSE:
        # what fails without printing is not about printing
        for g, l in leaves(outcome("repo", mod, fn, args)[1]):
            if l[0] == "raise":
                bad = conj(bad, neg(g))
    bad, unk = compare.definite(bad)
    if bad is not FALSE:
        r.status = "differs"
        r.text = "printing raises when %s\n%s" % (
            " and ".join(show_atom(i) if b else "not " + show_atom(i) for i, b in cube(bad)) or "always",
            "\n".join("  " + show_leaf(l) for g, l in why if conj(g, bad) is not FALSE))
    elif unk:
        r.status, r.text = "undecided", "whether it raises"
    return r


def run_case(mod, fn, args, assume=TRUE, prep=None, identity=(), effects=True, ignore=()):
    r = Result()
    key = (mod, fn, repr([a if callable(a) else node(a).id for a in args])) if not prep and not any(
        callable(a) for a in args) else None
    ipr, vr, sr = _refcache.get(key) or outcome("spec", mod, fn, args, prep)
    if key:
        _refcache[key] = (ipr, vr, sr)
    r.rejects = all(l[0] == "raise" for _, l in leaves(vr))
    try:
        ipc, vc, sc = outcome("repo", mod, fn, args, prep)
    except Undecided as e:
        r.status, r.text = "undecided", str(e)
        return r
    judge(r, ipr, vr, sr, ipc, vc, sc, assume, identity, ignore)
    if r.status == "same" and ipc.sets_iterated:
        # what comes first in a set is not determined
        try:
            ipc, vc, sc = outcome("repo", mod, fn, args, prep, reverse=True)
        except Undecided as e:
            r.status, r.text = "undecided", str(e)
            return r
        calls = r.calls
        judge(r, ipr, vr, sr, ipc, vc, sc, assume, identity, ignore)
        r.calls += calls
        if r.status == "differs":
            r.text = "members of sets taken in the opposite order; " + r.text
    return r


EFFECTS_ONLY = [False]


def outside(s):
    """effects of a run on the world"""
    return tuple((g, e) for g, e in (s.heap[-1].data if -1 in s.heap else ())
                 if e.leaf[2] in ("open", "urlopen") or kind_of(e.leaf[2]))


def judge_effects(r, sr, sc, assume):
    """what may be done is done, nothing else: every effect of the program is one of the reference's"""
    ea, eb = outside(sr), outside(sc)
    for g, e in eb:
        d = conj(assume, g)
        for h, a in ea:
            if a is e:
                d = conj(d, neg(h))
        bad, unk = compare.definite(d)
        if bad is not FALSE:
            r.status, r.text = "differs", "%s when %s" % (show_leaf(e.leaf), " and ".join(
                show_atom(i) if b else "not " + show_atom(i) for i, b in cube(bad)) or "always")
        elif unk and r.status == "same":
            r.status, r.text = "undecided", "when %s is done" % show_leaf(e.leaf)


def judge(r, ipr, vr, sr, ipc, vc, sc, assume, identity, ignore, effects=False):
    r.reached = {f for f in ipc.reached if not f.module.name.startswith("drv_")}
    r.calls = ipc.calls
    if EFFECTS_ONLY[0]:
        return judge_effects(r, sr, sc, assume)
    c = compare.Compare(ipr, sr, ipc, sc, identity=identity, ignore=ignore)
    c.pc = assume
    try:
        d = conj(assume, c.diff(vr, vc))
        if identity:
            d = disj(d, conj(assume, c.alias()))
        if effects:
            ea, eb = outside(sr), outside(sc)
            d = disj(d, conj(assume, c.seq(ea, eb, "effects")))
    except Undecided as e:
        r.status, r.text = "undecided", str(e)
        return
    bad, unk = compare.definite(d)
    if bad is not FALSE:
        r.status = "differs"
        r.cond = bad
        cond = [show_atom(i) if b else "not " + show_atom(i) for i, b in cube(bad)]
        lines = []
        for path, g, la, lb in c.why:
            if compare.definite(conj(g, assume))[0] is not FALSE:
                lines.append("  %s: specified %s, found %s" % (path, show_leaf(la) if isinstance(la, tuple) else la,
                                                               show_leaf(lb) if isinstance(lb, tuple) else lb))
        r.text = "when %s\n%s" % (" and ".join(cond) or "always", "\n".join(lines[:8]))
    elif unk or c.unknown:
        r.status = "undecided"
        r.text = "cannot compare %s" % "; ".join(sorted({p for p, _ in c.unknown})[:4])
