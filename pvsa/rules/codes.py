"""Numeric codes, size limits and physical constants on both sides of the engine boundary."""
from pvsa.load import AnalysisError
from pvsa.rules import bad, ok, rule, unsure
from pvsa.rules._const import KERNEL, enum, fold, line, name

COMPILER = "pvtrace/engine/compiler.py"
RECORDER = "pvtrace/engine/recorder.py"
API = "pvtrace/engine/api.py"


def members(repo):
    c = repo.cls("Event")
    return {n: fold(repo, c.module, e) for n, e in c.cattrs.items() if not n.startswith("_")}, c


@rule("P01 P10 P17", "event codes agree", "every event kind has one code, the same in the Event enumeration and in the kernel")
def events(repo):
    k = repo.module(KERNEL)
    evs, c = members(repo)
    seen = {}
    for n, v in evs.items():
        if v in seen:
            yield bad("Event." + n, c.module.rel, c.lineno, "Event.%s and Event.%s share the code %r" % (n, seen[v], v))
        seen.setdefault(v, n)
    for n in [x for x in k.assigns if x.startswith("EV_")]:
        v = name(repo, k, n)
        if n[3:] not in evs:
            yield bad(n, k.rel, line(k, n), "the kernel's %s has no Event of that name" % n)
        elif v != evs[n[3:]]:
            yield bad(n, k.rel, line(k, n), "the kernel writes %s as %r but Event.%s is %r" % (n, v, n[3:], evs[n[3:]]))
        elif not 0 <= v <= 255:
            yield bad(n, k.rel, line(k, n), "%s does not fit the log's unsigned char column" % n)
        else:
            yield ok(n, k.rel, line(k, n))


@rule("P10 P12", "scene tags agree", "each geometry, surface, component, phase-function and emission-method tag has the same value in the compiler and in the kernel, distinct within its family")
def tags(repo):
    k, c = repo.module(KERNEL), repo.module(COMPILER)
    for fam in ("GEOM_", "SURF_", "COMP_", "PHASE_", "EMIT_"):
        seen = {}
        for n in [x for x in c.assigns if x.startswith(fam) and not x.startswith("EMIT_METHODS")]:
            v = name(repo, c, n)
            if not isinstance(v, int):
                continue
            if v in seen:
                yield bad(n, c.rel, line(c, n), "%s and %s share the code %r" % (n, seen[v], v))
                continue
            seen[v] = n
            if n not in k.assigns:
                yield unsure(n, c.rel, line(c, n), "no kernel constant of that name")
                continue
            w = name(repo, k, n)
            if w != v:
                yield bad(n, k.rel, line(k, n), "the compiler lowers %s to %r, the kernel reads it as %r" % (n, v, w))
            else:
                yield ok(n, k.rel, line(k, n))
        seen = {}
        for n in [x for x in k.assigns if x.startswith(fam)]:
            v = name(repo, k, n)
            if v in seen:
                yield bad("kernel " + n, k.rel, line(k, n), "%s and %s share the code %r" % (n, seen[v], v))
            seen.setdefault(v, n)


@rule("P06 P10", "emission methods agree", "each emission method name is sent to the kernel as the code the kernel uses for it")
def methods(repo):
    k, c = repo.module(KERNEL), repo.module(COMPILER)
    t = name(repo, c, "EMIT_METHODS")
    want = {"kT": "EMIT_KT", "redshift": "EMIT_REDSHIFT", "full": "EMIT_FULL"}
    for n, s in want.items():
        if n not in t:
            yield bad("EMIT_METHODS", c.rel, line(c, "EMIT_METHODS"), "method %r has no code" % n)
        elif t[n] != name(repo, k, s):
            yield bad("EMIT_METHODS[%r]" % n, c.rel, line(c, "EMIT_METHODS"), "%r is sent as %r, the kernel's %s is %r" % (n, t[n], s, name(repo, k, s)))
        else:
            yield ok("EMIT_METHODS[%r]" % n, c.rel, line(c, "EMIT_METHODS"))
    for n in t:
        if n not in want:
            yield unsure("EMIT_METHODS[%r]" % n, c.rel, line(c, "EMIT_METHODS"), "method unknown to the rule")


@rule("P10 P15", "recorder selectors agree", "each recorder event has the kernel's selector code, each property the code the kernel's property lookup uses")
def selectors(repo):
    k, r = repo.module(KERNEL), repo.module(RECORDER)
    t = name(repo, r, "EVENTS")
    seen = {}
    for n, v in t.items():
        s = "REC_" + n.upper()
        if v in seen:
            yield bad("EVENTS[%r]" % n, r.rel, line(r, "EVENTS"), "%r and %r share the code %r" % (n, seen[v], v))
        seen.setdefault(v, n)
        if s not in k.assigns:
            yield unsure("EVENTS[%r]" % n, r.rel, line(r, "EVENTS"), "no kernel constant " + s)
        elif name(repo, k, s) != v:
            yield bad("EVENTS[%r]" % n, r.rel, line(r, "EVENTS"), "%r is compiled to %r, the kernel's %s is %r" % (n, v, s, name(repo, k, s)))
        else:
            yield ok("EVENTS[%r]" % n, r.rel, line(r, "EVENTS"))
    t = name(repo, r, "PROPERTIES")
    want = {"wavelength": 0, "angle": 1, "duration": 2, "pathlength": 3, "x": 4, "y": 5, "z": 6}   # as prop_value is specified
    for n, v in want.items():
        if t.get(n, v) != v:
            yield bad("PROPERTIES[%r]" % n, r.rel, line(r, "PROPERTIES"), "%r is compiled to %r, the kernel's property lookup gives it for %r" % (n, t[n], v))
        elif n not in t:
            yield bad("PROPERTIES[%r]" % n, r.rel, line(r, "PROPERTIES"), "property %r is missing" % n)
        else:
            yield ok("PROPERTIES[%r]" % n, r.rel, line(r, "PROPERTIES"))


@rule("P10 P11 P13", "capacity limits agree", "the compiler accepts at most as many nodes and recorders as the kernel's arrays hold, and the hit list holds every crossing of that many nodes")
def limits(repo):
    k, c = repo.module(KERNEL), repo.module(COMPILER)
    for n in ("MAX_NODES", "MAX_RECORDERS"):
        a, b = name(repo, c, n), name(repo, k, n)
        if a > b:
            yield bad(n, c.rel, line(c, n), "the compiler accepts %d, the kernel's arrays hold %d" % (a, b))
        else:
            yield ok(n, c.rel, line(c, n), "%d of %d" % (a, b))
        if n == "MAX_NODES" and a * 4 > name(repo, k, "MAX_HITS"):
            yield bad("MAX_HITS", k.rel, line(k, "MAX_HITS"), "%d nodes with up to 4 crossings each do not fit %d hits" % (a, name(repo, k, "MAX_HITS")))
    v = name(repo, c, "VOLUME_EVENTS")
    if frozenset(v) != frozenset(("lost", "reacted", "killed")):
        yield bad("VOLUME_EVENTS", c.rel, line(c, "VOLUME_EVENTS"), "facet filters are refused for %s instead of the volume events lost, reacted, killed" % sorted(v))
    else:
        yield ok("VOLUME_EVENTS", c.rel, line(c, "VOLUME_EVENTS"))


def close(a, b, tol):
    return abs(a - b) <= tol * abs(b)


@rule("P03", "speed of light", "the speed of light used for elapsed time is 2.99792458e10 cm/s in both tracers")
def light(repo):
    k, r = repo.module(KERNEL), repo.module("pvtrace/light/ray.py")
    for m, n in ((k, "C_CM_PER_S"), (r, "speed_of_light_cm_per_s")):
        try:
            v = name(repo, m, n)
        except AnalysisError as x:
            yield unsure(n, m.rel, None, str(x))
            continue
        yield (ok if close(v, 2.99792458e10, 1e-6) else bad)(n, m.rel, line(m, n), "%r cm/s" % v)


@rule("P06", "Boltzmann constant", "the thermal shift uses kB/e = 8.617e-5 eV/K in both tracers")
def boltzmann(repo):
    k, r = repo.module(KERNEL), repo.module("pvtrace/material/component.py")
    for m, n in ((k, "KB_EV"), (r, "kB")):
        try:
            v = name(repo, m, n)
        except AnalysisError as x:
            yield unsure(n, m.rel, None, str(x))
            continue
        yield (ok if close(v, 8.617333e-5, 1e-4) else bad)(n, m.rel, line(m, n), "%r eV/K" % v)


@rule("P04 P08 P38", "tolerances agree", "the kernel's distance and attenuation tolerances are the Python tracer's")
def tolerances(repo):
    k = repo.module(KERNEL)
    u = repo.module("pvtrace/geometry/utils.py")
    try:
        a, b = name(repo, k, "EPS"), name(repo, u, "EPS_ZERO")
        if not close(a, b, 1e-3):
            yield bad("EPS", k.rel, line(k, "EPS"), "the kernel ignores crossings nearer than %r, the Python tracer %r" % (a, b))
        elif not 0 < b < 1e-9:
            yield bad("EPS_ZERO", u.rel, line(u, "EPS_ZERO"), "%r is not a rounding tolerance" % b)
        else:
            yield ok("EPS", k.rel, line(k, "EPS"))
    except AnalysisError as x:
        yield unsure("EPS", k.rel, None, str(x))
    try:
        a = name(repo, k, "ALPHA_ZERO")
        yield (ok if close(a, 1e-8, 1e-3) else bad)("ALPHA_ZERO", k.rel, line(k, "ALPHA_ZERO"), "np.isclose(alpha, 0) uses 1e-8, the kernel %r" % a)
    except AnalysisError as x:
        yield unsure("ALPHA_ZERO", k.rel, None, str(x))
