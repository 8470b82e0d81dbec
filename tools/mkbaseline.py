"""Regenerate pvsa/baseline.json from the unchanged tree: for every specification
the symbols its function leaves uninterpreted and how often it has no value."""
import ast
import json
import os
import sys
from glob import glob as glob_

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pvsa.conform import load_specs, run_spec, vocabulary
from pvsa.load import Repo
from pvsa.memory import names_of, stored_outside

repo = Repo()
glob, specs = set(), {}
for sp in load_specs(repo):
    r = run_spec(repo, sp, expected_undefs=1)
    if r.status != "proved" and hasattr(r, "code"):
        strs = set()
        v = vocabulary(r.code, strs=strs)
        r = run_spec(repo, sp, frozenset(v) | {"str:" + x for x in strs}, expected_undefs=1)
    if r.status != "proved":
        print(r.status, sp.id, r.reason)
        for d in r.diffs[:1]:
            print("    ", d.what, d.detail)
    if not hasattr(r, "code"):
        continue
    nums, strs = set(), set()
    vc, vw = vocabulary(r.code, nums, strs=strs), vocabulary(r.want)
    glob |= {x for x in vc | vw if x.split(":")[0] in ("attr", "mcall", "new", "func")}
    specs[sp.id] = {"vocab": sorted(vc - vw) + sorted("num:%r" % float(x) for x in nums if abs(x) > 2) + sorted("str:" + x for x in strs), "trials": r.trials, "defined": r.defined, "onesided": r.onesided, "fails": {k: n / r.trials for k, n in r.code_undefs.items()}}
mutable = stored_outside(ast.parse(open(p).read()) for d in ("pvtrace", "tests", "examples") for p in glob_(os.path.join(repo.root, d, "**", "*.py"), recursive=True))
with open(os.path.join(HERE, "pvsa", "baseline.json"), "w") as f:
    json.dump({"global": sorted(glob), "names": sorted(names_of(repo)), "mutable": sorted(mutable), "specs": specs}, f, indent=1, sort_keys=True)
    f.write("\n")
print(len(specs), "specifications")
