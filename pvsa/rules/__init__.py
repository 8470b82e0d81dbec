"""Rules over the syntax tree and the value graphs, registered by property."""
import importlib
import os

REGISTRY = []


class Ob:
    """One obligation: a construct, the verdict on it, and why."""
    def __init__(self, status, construct, where, line, detail=""):
        self.status, self.construct, self.where, self.line, self.detail = status, construct, where, line, detail


def rule(props, name, text):
    def deco(f):
        REGISTRY.append((props.split(), name, text, f))
        return f
    return deco


def ok(construct, where, line=None, detail=""):
    return Ob("proved", construct, where, line, detail)


def bad(construct, where, line, detail):
    return Ob("violated", construct, where, line, detail)


def unsure(construct, where, line, detail):
    return Ob("undecided", construct, where, line, detail)


def load():
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("pvsa.rules." + f[:-3])
    return REGISTRY
