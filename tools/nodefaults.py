"""Parameters whose default value the specifications do not state (development aid)."""
import sys
sys.path.insert(0, "/verif")
from pvsa.load import Repo
from pvsa.conform import load_specs, locate
R = Repo()
import ast
for sp in load_specs(R):
    f, c = locate(R, sp.code)
    if f is None:
        continue
    def tab(d):
        a = d.args
        pos = a.posonlyargs + a.args
        t = {x.arg: ast.unparse(v) for x, v in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
        t.update({x.arg: ast.unparse(v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        return t
    a, b = tab(f.d), tab(sp.fn)
    for n in a:
        if n not in b:
            print(sp.id, n, a[n])
