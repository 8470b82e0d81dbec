#!/usr/bin/python3
"""plant.py FILE...: each FILE is a bug description (see below); builds
/verif/seeded/<id>/ from it, and confirms it: demo passes on the unchanged tree,
the patch applies, builds, keeps the stable tests passing and fails the demo; then
says which checks report it. /repo is restored afterwards.

Description: a python file defining ID, PROP, NEEDS, BREAKS, EDITS = [(path, old,
new), ...], DEMO (python source, run by /opt/venv/bin/python with cwd /repo)."""
import json, os, subprocess, sys

SEED = "/verif/seeded"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh("git", "-C", "/repo", "checkout", "--", ".")


def demo(d):
    return sh("bash", d + "/demo.sh", cwd="/repo", timeout=300)


def main(f, checks):
    ns = {}
    exec(open(f).read(), ns)
    i, d = ns["ID"], SEED + "/" + ns["ID"]
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip(), "dirty"
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as o:
        o.write(ns["DEMO"].strip() + "\n")
    with open(d + "/demo.sh", "w") as o:
        o.write('#!/bin/bash\n# Exit 0 when the guarantee holds, non-zero when it is broken.\n'
                'here="$(cd "$(dirname "$0")" && pwd)"\n'
                'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                'exec /opt/venv/bin/python "$here/demo.py"\n')
    with open(d + "/meta.json", "w") as o:
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, o, indent=1)
        o.write("\n")
    sh("bash", "/opt/vp/build.sh")
    r = demo(d)
    if r.returncode:
        print(i, "DEMO FAILS ON THE UNCHANGED TREE", r.stdout[-500:], r.stderr[-1500:])
        return
    try:
        for p, old, new in ns["EDITS"]:
            s = open("/repo/" + p).read()
            assert s.count(old) == 1, (p, s.count(old), old)
            open("/repo/" + p, "w").write(s.replace(old, new))
        with open(d + "/patch.diff", "w") as o:
            o.write(sh("git", "-C", "/repo", "diff").stdout)
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode:
            print(i, "BUILD FAILS", b.stdout[-800:])
            return
        r = demo(d)
        ok = r.returncode != 0
        if not ok:
            print(i, "DEMO PASSES WITH THE PATCH", r.stdout[-300:])
        t = sh("bash", "/opt/vp/test.sh", "/tmp/plant_o.json")
        o = json.load(open("/tmp/plant_o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = set(base.get("stable") or base.get("passed") or [])
        miss = sorted(stable - set(o.get("passed") or o.get("stable") or []))
        if miss:
            print(i, "BREAKS TESTS", miss[:4])
        caught = []
        ids = checks or [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
        procs = [(c, subprocess.Popen(["/opt/venv/bin/python", "/verif/check.py", c], stdout=subprocess.PIPE,
                                      stderr=subprocess.STDOUT, text=True)) for c in ids]
        for c, p in procs:
            out = p.communicate()[0]
            if p.returncode == 1:
                caught.append(c)
            elif p.returncode:
                caught.append(c + "!ERR")
        print(i, "ok" if ok and not miss else "REJECT", "prop", ns["PROP"],
              "CAUGHT" if ns["PROP"] in caught else "MISSED", "by", caught)
        print("   demo:", (r.stdout + r.stderr).strip().splitlines()[-1:])
    finally:
        clean()


if __name__ == "__main__":
    a = sys.argv[1:]
    ck = [x for x in a if not x.endswith(".bug")]
    for f in a:
        if f.endswith(".bug"):
            try:
                main(f, ck)
            except Exception as x:
                clean()
                print(f, "ERROR", repr(x))
    sh("bash", "/opt/vp/build.sh")
