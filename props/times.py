"""Obligations over time ranges as text: C25."""
from .keywords import *
from .model import c25_model


def hour(p):
    return slot(p + ".hour", ("1[0-9]", "[0-9]", "2[0-3]", "0[0-9]"), numeric=True)


def minute(p):
    return slot(p + ".minute", ("[1-5][0-9]", "0[0-9]", "[0-9]"), numeric=True)


def dom(p):
    return slot(p + ".dom", ("[1-9]", "1[0-9]", "2[0-8]", "0[1-9]"), numeric=True)


def yyyy(p):
    return slot(p + ".yyyy", ("19[0-9][0-9]", "20[0-9][0-9]", "[3-9][0-9]{3}"), numeric=True)


def when(p, month="March", day=None):
    """text, (day, month, year, hour, minute)"""
    d = day or dom(p)
    return ([hour(p), ":", minute(p), " ", d, " ", month, " ", yyyy(p)],
            (d, str(MONTHS.index(month) + 1), yyyy(p), hour(p), minute(p)))


def absolute(s=None, e=None):
    t = ["absolute"]
    if s:
        t += [" start "] + s[0]
    if e:
        t += [" end "] + e[0]
    return t, ("absolute", s and s[1], e and e[1])


def periodic(p, days, eday=None):
    t = ["periodic ", " ".join(days), " ", hour(p + "s"), ":", minute(p + "s"), " to "]
    if eday:
        t += [eday, " "]
    t += [hour(p + "e"), ":", minute(p + "e")]
    return t, ("periodic", tuple(days), (hour(p + "s"), minute(p + "s")), eday, (hour(p + "e"), minute(p + "e")))


NO = (["no periodic"], None)
NO2 = (["no ", slot("no.rest", ("[b-m][a-z]{1,7}", "[A-Z][a-z0-9]{2,5}[ ][0-9]{1,3}:[0-9]"))], None)


def ranged(name, *lines):
    t = ["time-range ", name]
    for l, d in lines:
        t += ["\n "] + l
    return Form((t, ("time", name, tuple(d for l, d in lines if d is not None))))


def lines(tier):
    """name -> line"""
    r = {}
    for m in MONTHS:
        r["start in " + m] = absolute(when("a", m))
        r["end in " + m] = absolute(None, when("b", m))
    for i, m in enumerate(MONTHS):
        for j in ((i + 1) % 12, (i + 5) % 12):
            r["%s to %s" % (m, MONTHS[j])] = absolute(when("a", m), when("b", MONTHS[j]))
        for d in ("29", "30", "31"):
            if d == "31" and m in ("February", "April", "June", "September", "November") or m == "February":
                continue
            r["%s of %s" % (d, m)] = absolute(when("a", m, d), when("b", m, "1"))
    r["at once"] = absolute(when("a"), when("a"))
    for d in DAYS:
        r["on " + d] = periodic("p", (d,))
        for e in DAYS:
            r["%s to %s" % (d, e)] = periodic("p", (d,), e)
            if d != e:
                r["%s and %s" % (d, e)] = periodic("p", (d, e))
    for d in ("weekdays", "weekend", "daily"):
        r["on " + d] = periodic("p", (d,))
    r["all days"] = periodic("p", DAYS)
    r["all days backwards"] = periodic("p", DAYS[::-1])
    r["three days to a day"] = periodic("p", ("Monday", "Wednesday", "Friday"), "Saturday")
    r["two days to a day"] = periodic("p", ("Sunday", "Monday"), "Monday")
    return r


def c25(tier):
    yield from c25_model(tier)
    n = slot("tr.rname", ("[A-Y][A-Z0-9]{1,6}_[A-Z]", "q[a-z0-9]{1,4}[-][a-z]{1,4}", "Q[a-z]{2}[0-9]{1,3}", "[0-9]{1,3}[.][a-z]{2,4}"))
    ls = lines(tier)
    for k, l in ls.items():
        yield conf(tier, "time range: " + k, "asa", ranged(n, l))
    sel = ["start in May", "end in June", "January to February", "on Monday", "Monday to Friday", "Monday and Tuesday", "on weekdays", "on daily", "on weekend"]
    other = {"absolute": absolute(when("x", "July"), when("y", "August")), "periodic": periodic("q", ("Thursday",), "Saturday"),
             "daily": periodic("q", ("daily",)), "no": NO, "no other": NO2}
    for k in sel:
        for o, x in other.items():
            yield conf(tier, "time range: %s, then %s" % (k, o), "asa", ranged(n, ls[k], x))
            yield conf(tier, "time range: %s, then %s" % (o, k), "asa", ranged(n, x, ls[k]))
        yield conf(tier, "time range: %s twice" % k, "asa", ranged(n, ls[k], ls[k]))
        yield conf(tier, "time range: %s between" % k, "asa", ranged(n, other["daily"], ls[k], other["periodic"]))
    yield conf(tier, "time range: empty", "asa", ranged(n))
    yield conf(tier, "time range: nothing but no", "asa", ranged(n, NO, NO2))
    yield conf(tier, "time ranges", "asa", ranged("Ta", ls["on Monday"]) + ranged("Tb") + ranged("T", other["daily"], other["absolute"]) + obj("OBJ", "o"))
    yield conf(tier, "time ranges, one at the end", "asa", obj("OBJ", "o") + ranged(n, ls["on Monday"]))
