"""Queries as text and as descriptions, run over the same rules."""
from acltk.aclObjects import *
from acltk.cafObjects import *
from drv_model import *


def run_query(text, rules):
    l = ACLRules()
    for r in rules:
        l.add(rule(r))
    return cafBlock.fromString(text).run(l), l.rules


def run_meaning(e, rules):
    l = ACLRules()
    for r in rules:
        l.add(rule(r))
    return cafBlock(expression(e)).run(l), l.rules


def no_query(text, rules):
    raise ValueError("not a query")


class Stream:
    def __init__(self, path):
        self.file = open(path, "rb")

    def read(self):
        return self.file.read()


def query_by(text, how, rules):
    if how == "string":
        b = cafBlock.fromString(text)
    elif how == "path":
        b = cafBlock.fromPath("config")
    elif how == "file":
        b = cafBlock.fromFile(Stream("config"))
    else:
        s = Stream("config")
        s.name = "config"
        b = cafBlock.fromFile(s)
    l = ACLRules()
    for r in rules:
        l.add(rule(r))
    return b.run(l), l.rules


def two_queries(text, other, rules):
    l = ACLRules()
    for r in rules:
        l.add(rule(r))
    try:
        cafBlock.fromString(other).run(l)
    except Exception:
        pass
    return cafBlock.fromString(text).run(l), l.rules
