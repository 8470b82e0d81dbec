"""Conditions of a specification that the models only ever see one way.

usage: tools/gates.py FILTER...   (development aid: finds weak specifications)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pvsa.load import Repo
from pvsa.conform import load_specs, run_spec
from pvsa.terms import T


def show(t, d=0):
    if isinstance(t, T):
        if t.op == "const":
            return repr(t.a[0])
        if t.op in ("sym", "ext", "glob", "bi"):
            return str(t.a[0])
        if t.op in ("phi", "eta", "eff", "tick", "lval", "lexit", "lbrk"):
            return t.op + str(list(t.a[1:]))
        if t.op == "attr":
            return show(t.a[0], d + 1) + "." + str(t.a[1])
        if t.op == "cmp":
            return "(%s %s %s)" % (show(t.a[1], d + 1), t.a[0], show(t.a[2], d + 1))
        if d > 7:
            return ".."
        return t.op + "(" + ", ".join(show(x, d + 1) for x in t.a) + ")"
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    return str(t)[-30:]


R = Repo()
for sp in load_specs(R):
    if not any(p in sp.id or p in sp.props for p in sys.argv[1:]):
        continue
    r = run_spec(R, sp)
    g = getattr(r, 'cov', {})
    print(r.status, sp.id, "%d/%d" % (r.defined, r.trials), r.undefs, r.reason)
    for k, (f, t, term) in sorted(g.items()):
        if f == 0 or t == 0 or "-a" in sys.argv:
            print("     %s %5d  %s" % ("never true " if t == 0 else "never false" if f == 0 else "           ", f + t, show(term)[:260]))
