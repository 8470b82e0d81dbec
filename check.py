#!/opt/venv/bin/python
"""check.py <property>: decide one property from /repo's current source.

Runs every conformance obligation and every rule registered for the property,
writes evidence/<property>.json and exits 0 (held on everything analysed) or 1
(a construct violates it)."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from pvsa import memory, rules                                           # noqa: E402
from pvsa.conform import interpreted, load_specs, run_spec, vocabulary   # noqa: E402
from pvsa.load import AnalysisError, Repo                        # noqa: E402

BASE = os.path.join(HERE, "pvsa", "baseline.json")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def baseline():
    try:
        with open(BASE) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"global": [], "specs": {}}


def known_findings(prop):
    """`finding: property=<id> key=<key> <what fails>`"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=%s " % prop):
                key, _, text = l.split("key=", 1)[1].strip().partition(" ")
                out[key] = text
    return out


def lineof(sp, repo, r):
    d = next((x for x in r.diffs if x.line), None)
    where = r.where or sp.code
    return where, (d.line if d else r.line)


def conformance(repo, prop, base, tier, seed):
    out = []
    for sp in load_specs(repo):
        if prop not in sp.props:
            continue
        b = base["specs"].get(sp.id, {})
        vocab = frozenset(base["global"]) | frozenset(b.get("vocab", ()))
        n = sp.trials * (10 if tier == "thorough" else 1)
        try:
            r = run_spec(repo, sp, vocab, trials=n, seed=seed, expected_undefs=b.get("fails", 1))
        except Exception as x:               # the analyser gives up: no verdict
            out.append({"rule": "conforms", "construct": sp.code, "spec": sp.id, "status": "undecided",
                        "detail": "analyser: %s: %s" % (type(x).__name__, x), "trials": 0})
            if os.environ.get("PVSA_TRACE"):
                traceback.print_exc()
            continue
        one = getattr(r, "onesided", 0)
        if r.status == "proved":
            lim = max(3, 0.5 * b.get("defined", 0) / max(1, b.get("trials", 1)) * r.trials)
            if r.full and r.defined < lim:
                r.status, r.reason = "undecided", "defined in %d of %d models only" % (r.defined, r.trials)
            elif one > (b.get("onesided", 0) / max(1, b.get("trials", 1)) * 2 + 0.05) * r.trials:
                r.status, r.reason = "undecided", "code has no value in %d models where the specification has" % one
        d = {"rule": "conforms", "construct": sp.code, "spec": sp.id, "status": r.status, "models": r.trials,
             "models_with_outcome": r.defined, "functions": len(r.functions), "sites": r.sites if isinstance(r.sites, int) else len(r.sites),
             "detail": r.reason}
        if r.status == "violated":
            x = r.diffs[0]
            d["what"] = x.what
            d["detail"] = x.detail + (" " + r.reason if r.reason else "")
            d["line"] = x.line
            d["where"] = str(x.where or sp.code)
        out.append(d)
        d["_functions"] = r.functions
    return out


def remembered(repo, base, obs):
    """No memory between calls in the functions the obligations rest on."""
    found, over = memory.findings(repo, set(base.get("names", ())), base.get("mutable", ()))
    out = []
    own = {tuple(x) for o in obs for x in o.get("_functions", ()) if tuple(x) in found}
    own |= {k for k in over if over[k] & own}
    for key in sorted(own):
        for status, line, detail in found[key] or [("proved", None, "keeps nothing new between calls")]:
            out.append({"rule": "nothing kept between calls", "construct": key[1], "where": key[0], "line": line, "status": status,
                        "detail": detail, "what": "memory"})
    return out


def ruled(repo, prop):
    out = []
    for props, name, text, f in rules.load():
        if prop not in props:
            continue
        try:
            obs = list(f(repo))
        except (AnalysisError, RecursionError) as x:
            obs = [rules.unsure(name, "", None, "%s: %s" % (type(x).__name__, x))]
        except Exception as x:
            obs = [rules.unsure(name, "", None, "analyser: %s: %s" % (type(x).__name__, x))]
            if os.environ.get("PVSA_TRACE"):
                traceback.print_exc()
        for o in obs:
            out.append({"rule": name, "text": text, "construct": o.construct, "where": o.where, "line": o.line,
                        "status": o.status, "detail": o.detail, "what": name})
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        repo = Repo()
        base = baseline()
        obs = conformance(repo, prop, base, tier, seed)
        obs += remembered(repo, base, obs) + ruled(repo, prop)
    except Exception as x:
        obs = [{"rule": "load", "construct": "repository", "status": "undecided",
                "detail": "%s: %s" % (type(x).__name__, x)}]
        if os.environ.get("PVSA_TRACE"):
            traceback.print_exc()
    findings = known_findings(prop)
    bad, seen = [], set()
    for o in obs:
        if o["status"] != "violated":
            continue
        key = "%s|%s" % (o.get("spec") or o["rule"], o["construct"] if o["rule"] != "conforms" else o["what"])
        key = key.replace(" ", "_")
        o["key"] = key
        if key in findings:
            o["status"] = "known finding"
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, findings[key]))
            seen.add(key)
        else:
            bad.append(o)
    funcs = set()
    for o in obs:
        funcs |= {str(x) for x in o.pop("_functions", ())}
    n = {s: sum(o["status"] == s for o in obs) for s in ("proved", "violated", "undecided", "known finding")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Obligations decided from the source of /repo on this run, without running it. A 'conforms' "
                           "obligation compares the gated value graph of the named function (callees expanded) with the "
                           "value graph of its specification in randomly chosen models of the uninterpreted symbols; a "
                           "rule obligation is one construct (call site, table row, store, statement) checked by the "
                           "rule named.",
            "obligations": len(obs), "discharged": n["proved"], "undecided": n["undecided"],
            "known_findings": n["known finding"],
            "functions_analysed": len(funcs),
            "models_compared": sum(o.get("models", 0) for o in obs),
            "obligation_list": [{k: v for k, v in o.items() if v not in (None, "")} for o in obs],
            "functions": sorted(funcs),
        },
        "violations": len(bad),
        "wall_s": round(time.time() - t0, 3),
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings, %d violated; %d functions, %.1fs" % (
        prop, len(obs), n["proved"], n["undecided"], n["known finding"], len(bad), len(funcs), time.time() - t0))
    for o in obs:
        if o["status"] == "undecided":
            print("  undecided: %s %s: %s" % (o["rule"], o["construct"], o["detail"]))
    for o in bad:
        print("  %s: %s%s: %s [%s]" % (o["construct"], o.get("where") or "", ":%s" % o["line"] if o.get("line") else "",
                                       o["detail"], o.get("spec") or o["rule"]))
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 0
    sys.stdout.flush()
    os._exit(rc)
