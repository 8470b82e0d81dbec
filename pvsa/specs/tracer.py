"""The Python ray tracer (pvtrace.algorithm.photon_tracer)."""
import numpy as np
from pvtrace.light.event import Event
from pvtrace.material.component import Scatterer, Luminophore, Reactor
from pvtrace.algorithm.photon_tracer import next_hit, find_container, step_forward

EPS = 2.0 ** -52 * 1000


@spec("pvtrace/algorithm/photon_tracer.py:find_container", props="P08", domain={"attr:distance": "$pos"}, maxlen=5, trials=150, rounds=6)
def container(intersections):
    if len(intersections) == 1:
        return intersections[0].hit
    best = None
    nearest = np.inf
    for i in intersections:
        crossings = 0
        for j in intersections:
            if j.hit == i.hit:
                crossings = crossings + 1
        if crossings == 1 and i.distance < nearest:
            best = i.hit
            nearest = i.distance
    if best is None:
        return intersections[:0][0]
    return best


def distance(a, b):
    return np.linalg.norm(np.array(a) - np.array(b))


@spec("pvtrace/algorithm/photon_tracer.py:next_hit", props="P08 P07", opaque=("find_container", "to", "intersections"), domain={"attr:distance": [0.0, 1e-13, 3e-13, 1e-10, 1e-8, 1e-7, 1e-6, 1e-4, "$pos", "$pos", "$pos", "$pos"], "attr:position": "$vec", "attr:direction": "$vec", "attr:point": "$vec"}, maxlen=4, trials=150, rounds=6)
def nexthit(scene, ray):
    found = []
    for x in scene.intersections(ray.position, ray.direction):
        if not abs(x.distance) < EPS:
            found.append(x.to(scene.root))
    if len(found) == 0:
        return None
    first = found[0]
    if len(found) == 1:
        return first.hit, (first.hit, None), first.point, first.distance
    inside = find_container(found)
    if inside == first.hit:
        beyond = found[1].hit
    else:
        beyond = first.hit
    return first.hit, (inside, beyond), first.point, distance(ray.position, first.point)


def name_or_none(node):
    if node is None:
        return None
    return node.name


TRACE_OPAQUE = "callees with their own specifications"


@spec("pvtrace/algorithm/photon_tracer.py:step_forward", props="P01 P02 P03 P04 P05 P06 P07 P09",
      opaque=("next_hit", "propagate", "representation", "is_absorbed", "component", "is_radiative", "emit", "nonradiative_absorb", "is_reflected", "reflect", "transmit", "normal", "vector_to_node"),
      domain={"sym:maxsteps": [0, 1, 2, 3, 100], "sym:maxpathlength": ["$inf", "$pos", "$pos"], "attr:travelled": "$pos", "pcall:is_absorbed": ("tuple", "$bool", "$pos"),
              "pcall:next_hit": [None, ("tuple", "$any", ("tuple", "$any", "$any"), "$vec", "$pos"), ("tuple", "$any", ("tuple", "$any", "$any"), "$vec", "$pos"), ("tuple", "$any", ("tuple", "$any", "$any"), "$vec", "$pos")], "mcall:is_radiative": "$bool", "mcall:is_reflected": "$bool"},
      trials=160, rounds=4)
@spec(case="events", trials=400, rounds=5, domain={"sym:maxsteps": [3, 4, 5], "sym:maxpathlength": ["$inf"], "mcall:component": ("is", "Absorber", "Scatterer", "Luminophore", "Reactor"),
      "pcall:next_hit": ("tuple", "$any", ("tuple", "$any", "$any"), "$vec", "$pos")})
@spec(case="volumes", trials=300, rounds=5, domain={"sym:maxsteps": [2, 3], "sym:maxpathlength": ["$inf"], "mcall:component": ("is", "Absorber", "Scatterer", "Luminophore", "Reactor"),
      "pcall:next_hit": ("tuple", "$any", ("tuple", "$any", "$any"), "$vec", "$pos"), "pcall:is_absorbed": ("tuple", [True], "$pos")})
def trace(scene, ray, maxsteps=1000, maxpathlength=np.inf, emit_method='kT'):
    yield (ray, Event.GENERATE, None)
    steps = 0
    while True:
        steps += 1
        info = next_hit(scene, ray)
        if info is None:
            return
        hit, sides, point, full = info
        inside, beyond = sides
        medium = inside.geometry.material
        index = medium.refractive_index
        if steps > maxsteps or ray.travelled > maxpathlength:
            yield (ray, Event.KILL, {"maxsteps": steps, "maxpathlength": ray.travelled, "container": inside.name})
            return
        if hit is scene.root:
            yield (ray.propagate(full, index), Event.EXIT, {"hit": hit.name, "container": inside.name, "adjacent": name_or_none(beyond)})
            return
        absorbed, at = medium.is_absorbed(ray, full)
        if absorbed:
            ray = ray.propagate(at, index)
            part = medium.component(ray.wavelength)
            where = {"component": part.name, "container": inside.name}
            yield (ray, Event.ABSORB, where)
            if part.is_radiative(ray):
                local = part.emit(ray.representation(scene.root, inside), method=emit_method)
                ray = local.representation(inside, scene.root)
                what = {"component": part.name, "container": inside.name, "emit_method": emit_method}
                if isinstance(part, Luminophore):
                    yield (ray, Event.EMIT, what)
                elif isinstance(part, Scatterer):
                    yield (ray, Event.SCATTER, what)
                else:
                    raise ValueError()
                continue
            ray = part.nonradiative_absorb(ray)
            if isinstance(part, Reactor):
                yield (ray, Event.REACT, where)
            else:
                yield (ray, Event.NONRADIATIVE, where)
            return
        ray = ray.propagate(full, index)
        surface = hit.geometry.material.surface
        local = ray.representation(scene.root, hit)
        normal = hit.vector_to_node(hit.geometry.normal(local.position), scene.root)
        if surface.is_reflected(local, hit.geometry, inside, beyond):
            ray = surface.reflect(local, hit.geometry, inside, beyond).representation(hit, scene.root)
            event = Event.REFLECT
        else:
            ray = surface.transmit(local, hit.geometry, inside, beyond).representation(hit, scene.root)
            event = Event.TRANSMIT
        yield (ray, event, {"hit": hit.name, "container": inside.name, "adjacent": name_or_none(beyond), "normal": normal})


@spec("pvtrace/algorithm/photon_tracer.py:follow", props="P01 P02 P06", opaque=("step_forward",), domain={"pcall:step_forward": ("seq", ("tuple", "$obj", "$event", "$obj"))})
def follow(scene, ray, maxsteps=1000, maxpathlength=np.inf, emit_method='kT'):
    out = []
    for r, event, info in step_forward(scene, ray, maxsteps=maxsteps, maxpathlength=maxpathlength, emit_method=emit_method):
        out.append((r, event))
    if len(out) == 0:
        return out[0]
    return out
