"""Reference: the query language."""
from acltk.aclObjects import ACLRule, NetworkGroup, NetworkAny, NetworkAny4, NetworkAny6, ACLRules, NATObject, want


class cafBlock:
    def __init__(self, expr):
        want(isinstance(expr, (ACLRule, cafBlock, cafOp)))
        self.expr = expr

    def run(self, rules, verbose=False):
        want(isinstance(rules, (ACLRules, cafOp, cafBlock)))
        if isinstance(self.expr, ACLRule):
            return rules.filter([self.expr])
        return self.expr.run(rules, verbose)

    @classmethod
    def fromString(cls, _data, filename=None, trace=False):
        want(isinstance(_data, str))
        return cls._parse(_data, filename, trace)


class cafOp:
    def __init__(self, a, b):
        want(isinstance(a, (cafBlock, cafOp, ACLRule)))
        want(isinstance(b, (cafBlock, cafOp, ACLRule)))
        self.a = cafBlock(a) if isinstance(a, ACLRule) else a
        self.b = cafBlock(b) if isinstance(b, ACLRule) else b

    def run(self, rules, verbose=False):
        want(isinstance(rules, (ACLRules, cafOp, cafBlock, NATObject)))
        return self.combine(self.a.run(rules, verbose), self.b.run(rules, verbose))

    def combine(self, a, b):
        return None


class cafOpIntersect(cafOp):
    def combine(self, a, b):
        return set([x for x in a if x in b])


class cafOpUnion(cafOp):
    def combine(self, a, b):
        r = set()
        for x in a:
            r.add(x)
        for x in b:
            r.add(x)
        return r


class cafOpExcept(cafOp):
    def combine(self, a, b):
        return set([x for x in a if x not in b])


def literally(kind, other):
    if isinstance(other, kind):
        return True
    if isinstance(other, NetworkGroup):
        return any([literally(kind, m) for m in other.objects])
    return False


class cafNetworkAny(NetworkAny):
    def __init__(self):
        pass

    def __and__(self, other):
        return literally(NetworkAny, other)


class cafNetworkAny4(NetworkAny4):
    def __init__(self):
        pass

    def __and__(self, other):
        return literally(NetworkAny4, other)


class cafNetworkAny6(NetworkAny6):
    def __init__(self):
        pass

    def __and__(self, other):
        return literally(NetworkAny6, other)
