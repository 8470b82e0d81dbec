"""The Python side of the compiled engine: emission, decoding, tallies."""
import collections
import multiprocessing
import time
import numpy as np
from anytree import PreOrderIter
from pvtrace.light.event import Event
from pvtrace.light.ray import Ray
from pvtrace.light import light as lights
from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic, lambertian
from pvtrace.engine.recorder import EVENTS, PROPERTIES, Heatmap, Histogram, Recorder
from pvtrace.engine.api import RecorderResult, EngineResult, simulate
from pvtrace.engine.emit import _sample_wavelengths, _sample_positions, _sample_directions, emit_bundle
from pvtrace.engine.tally import _bin_index, _matches, _local_position, _incidence_angle, _TallyState
from pvtrace.engine.compiler import compile_scene

MOMENTS = ("wavelength", "angle", "duration", "pathlength")


# ---------------------------------------------------------------- recorders

@spec("pvtrace/engine/recorder.py:Histogram.__init__", props="P15 P12", domain={"sym:prop": ["wavelength", "angle", "duration", "pathlength", "x", "y", "z", "nonsense", "travelled"], "sym:start": "$num", "sym:stop": "$num", "sym:bins": [0, 1, 2, 3, -1]}, trials=120)
def histogram_init(self, prop, start, stop, bins):
    if prop not in PROPERTIES:
        raise ValueError()
    if not stop > start:
        raise ValueError()
    if bins < 1:
        raise ValueError()
    self.prop = prop
    self.start = start
    self.stop = stop
    self.bins = bins


@spec("pvtrace/engine/recorder.py:Heatmap.__init__", props="P15 P12", opaque=("Histogram",), domain={"sym:range_a": ("tuple", "$num", "$num", "$int"), "sym:range_b": ("tuple", "$num", "$num", "$int"),
      "sym:prop_a": ["x", "y"], "sym:prop_b": ["y", "z"]}, trials=120)
def heatmap_init(self, prop_a, prop_b, range_a, range_b):
    self.a = Histogram(prop_a, range_a[0], range_a[1], range_a[2])
    self.b = Histogram(prop_b, range_b[0], range_b[1], range_b[2])


@spec("pvtrace/engine/recorder.py:Recorder.__init__", props="P15 P12", domain={"sym:event": ["entering", "escaping", "reflected", "lost", "reacted", "killed", "exit", "absorbed"], "sym:facet": ["$vec", None], "sym:atol": "$pos",
      "sym:histograms": [None, ("seq", ("is", "Histogram", "Heatmap")), ("seq", "$any")]}, trials=120)
def recorder_init(self, name, event="entering", facet=None, atol=1e-6, histograms=None):
    if event not in ("entering", "escaping", "reflected", "lost", "reacted", "killed", "exit"):
        raise ValueError()
    if histograms is not None:
        for h in histograms:
            if not isinstance(h, (Histogram, Heatmap)):
                raise ValueError()
    self.name = name
    self.event = event
    self.facet = facet
    self.atol = atol
    self.histograms = []
    if histograms is not None:
        self.histograms = list(histograms)


# ---------------------------------------------------------------- emission

def direction_columns(theta, phi):
    return np.column_stack((np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)))


@spec("pvtrace/engine/emit.py:_sample_wavelengths", props="P19", opaque=("sample",), domain={"sym:n": [0, 1, 2, 3], "attr:nanometers": "$num"})
def sample_wavelengths(delegate, n):
    if delegate is lights.default_wavelength or isinstance(delegate, lights.DefaultWavelength):
        return np.full(n, 555.0)
    if isinstance(delegate, lights.ConstantWavelengthMask):
        return np.full(n, delegate.nanometers)
    if isinstance(delegate, lights.SpectrumWavelengthMask):
        return delegate.distribution.sample(np.random.uniform(0, 1, n))
    return None


@spec("pvtrace/engine/emit.py:_sample_positions", props="P19", domain={"sym:n": [0, 1, 2, 3], "attr:x": "$num", "attr:y": "$num", "attr:z": "$num", "attr:radius": "$num"}, trials=120)
def sample_positions(delegate, n):
    if delegate is lights.default_position or isinstance(delegate, lights.DefaultPosition):
        return np.zeros((n, 3))
    if isinstance(delegate, lights.RectangularMask):
        x = (2 * np.random.uniform(0, 1, n) - 1) * delegate.x
        y = (2 * np.random.uniform(0, 1, n) - 1) * delegate.y
        return np.column_stack((x, y, np.zeros(n)))
    if isinstance(delegate, lights.CircularMask):
        a = 2 * np.pi * np.random.uniform(0, 1, n)
        r = np.sqrt(np.random.uniform(0, 1, n)) * delegate.radius
        return np.column_stack((r * np.cos(a), r * np.sin(a), np.zeros(n)))
    if isinstance(delegate, lights.CubeMask):
        x = (2 * np.random.uniform(0, 1, n) - 1) * delegate.x
        y = (2 * np.random.uniform(0, 1, n) - 1) * delegate.y
        z = (2 * np.random.uniform(0, 1, n) - 1) * delegate.z
        return np.column_stack((x, y, z))
    return None


@spec("pvtrace/engine/emit.py:_sample_directions", props="P19 P37", domain={"sym:n": [0, 1, 2, 3], "attr:g": [("range", 0.05, 1.0), ("range", -1.0, -0.05), ("range", -1e-14, 1e-14), 0.0, ("range", 1e-3, 0.05), ("range", -0.05, -1e-3)], "attr:theta_max": ("range", 0.0, 1.5707)}, trials=160)
def sample_directions(delegate, n):
    if delegate is lights.default_direction or isinstance(delegate, lights.DefaultDirection):
        return np.tile((0.0, 0.0, 1.0), (n, 1))
    if isinstance(delegate, Cone):
        t = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)) * np.sin(delegate.theta_max))
        return direction_columns(t, 2 * np.pi * np.random.uniform(0, 1, n))
    if delegate is isotropic or isinstance(delegate, HenyeyGreenstein) and not delegate is lambertian and abs(delegate.g) < 1e-12:
        p = 2 * np.pi * np.random.uniform(0, 1, n)
        return direction_columns(np.arccos(2 * np.random.uniform(0, 1, n) - 1), p)
    if delegate is lambertian:
        t = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)))
        return direction_columns(t, 2 * np.pi * np.random.uniform(0, 1, n))
    if isinstance(delegate, HenyeyGreenstein):
        g = delegate.g
        u = np.random.uniform(0, 1, n)
        mu = (1 + g ** 2 - ((1 - g ** 2) / (1 + g * (2 * u - 1))) ** 2) / (2 * g)
        return direction_columns(np.arccos(mu), 2 * np.pi * np.random.uniform(0, 1, n))
    return None


@spec("pvtrace/engine/emit.py:emit_bundle", props="P19 P07", abstract={"_sample_wavelengths": "effect", "_sample_positions": "effect", "_sample_directions": "effect", "emit": "effect"}, opaque=("transformation_to", "representation"), alloc=True,
      domain={"sym:num_rays": [0, 1, 2, 3, 4], "attr:light_nodes": ("seq", "$obj"), "pcall:transformation_to": "$affine", "mcall:emit": ("seq", "$obj"), "attr:name": ["", "$opq", "$opq", "$opq"]}, trials=120, rounds=6)
def emit_bundle(scene, num_rays):
    nodes = scene.light_nodes
    if num_rays > 0 and len(nodes) == 0:
        raise ValueError()
    positions = np.zeros((num_rays, 3))
    directions = np.zeros((num_rays, 3))
    wavelengths = np.zeros(num_rays)
    sources = np.empty(num_rays, dtype=object)
    for index, node in enumerate(nodes):
        rows = np.arange(index, num_rays, len(nodes))
        n = rows.size
        if n == 0:
            continue
        light = node.light
        w = _sample_wavelengths(light.wavelength, n)
        p = _sample_positions(light.position, n)
        d = _sample_directions(light.direction, n)
        if w is None or p is None or d is None:
            for row, ray in zip(rows, node.emit(n)):
                world = ray.representation(node, scene.root)
                positions[row] = world.position
                directions[row] = world.direction
                wavelengths[row] = world.wavelength
                sources[row] = world.source
        else:
            pose = node.transformation_to(scene.root)
            positions[rows] = p @ pose[:3, :3].T + pose[:3, 3]
            directions[rows] = d @ pose[:3, :3].T
            wavelengths[rows] = w
            sources[rows] = light.name
    return positions, directions, wavelengths, sources.tolist()


# ---------------------------------------------------------------- results

@spec("pvtrace/engine/api.py:RecorderResult.__init__", props="P15 P17")
def recorder_result(self, spec, rays, crossings, moments, bins):
    self.spec = spec
    self.rays = int(rays)
    self.crossings = int(crossings)
    self._moments = moments
    self._bins = bins


@spec("pvtrace/engine/api.py:RecorderResult.mean", props="P15 P17", domain={"sym:prop": ["wavelength", "angle", "duration", "pathlength"], "attr:rays": [0, 1, 2, 5], "idx:_moments": "$num"})
def recorder_mean(self, prop):
    i = MOMENTS.index(prop)
    if self.rays == 0:
        return float("nan")
    return self._moments[i, 0] / self.rays


@spec("pvtrace/engine/api.py:RecorderResult.std", props="P15 P17", domain={"sym:prop": ["wavelength", "angle", "duration", "pathlength"], "attr:rays": [0, 1, 2, 5], "idx:_moments": "$pos"})
def recorder_std(self, prop):
    i = MOMENTS.index(prop)
    if self.rays == 0:
        return float("nan")
    variance = self._moments[i, 1] / self.rays - (self._moments[i, 0] / self.rays) ** 2
    if variance < 0.0:
        variance = 0.0
    return np.sqrt(variance)


@spec("pvtrace/engine/api.py:RecorderResult.error", props="P15 P17", domain={"attr:rays": [0, 1, 2, 5], "pcall:std": "$pos"}, opaque=("std",))
def recorder_error(self, prop):
    if self.rays == 0:
        return float("nan")
    return self.std(prop) / np.sqrt(self.rays)


@spec("pvtrace/engine/api.py:RecorderResult.histogram", props="P15 P17", domain={"attr:histograms": ("seq", ("is", "Histogram", "Heatmap")), "attr:bins": "$int", "attr:start": "$num", "attr:stop": "$num", "sym:index": [0, 0, 1, 2, 3]}, trials=120)
def recorder_histogram(self, index=0):
    h = self.spec.histograms[index]
    counts = self._bins[index]
    if isinstance(h, Heatmap):
        return np.linspace(h.a.start, h.a.stop, h.a.bins + 1), np.linspace(h.b.start, h.b.stop, h.b.bins + 1), counts.reshape(h.a.bins, h.b.bins)
    return np.linspace(h.start, h.stop, h.bins + 1), counts


@spec("pvtrace/engine/api.py:EngineResult.__init__", props="P17 P18")
def engine_result(self, compiled, data, sources, max_events, record_every, elapsed):
    self.compiled = compiled
    self.data = data
    self.sources = sources
    self.max_events = max_events
    self.record_every = record_every
    self.elapsed = elapsed


@spec("pvtrace/engine/api.py:EngineResult.num_rays", props="P17 P18")
def num_rays(self):
    return len(self.sources)


@spec("pvtrace/engine/api.py:EngineResult.num_recorded", props="P17")
def num_recorded(self):
    return len(self.data["counts"])


@spec("pvtrace/engine/api.py:EngineResult.recorded_indices", props="P17", domain={"attr:record_every": [-1, 0, 1, 2, 3]})
def recorded_indices(self):
    if self.record_every <= 0:
        return np.zeros(0, dtype=np.int64)
    return np.arange(0, len(self.sources), self.record_every, dtype=np.int64)


@spec("pvtrace/engine/api.py:EngineResult.recorders", props="P12 P15 P17", domain={"attr:recorder_specs": ("seq", "$obj"), "attr:histograms": ("seq", "$obj"), "idx:rec_hist_start": "$int", "idx:hist_offset": "$int", "idx:hist_na": "$int", "idx:hist_nb": "$int"}, trials=120)
def recorders(self):
    out = {}
    for r, spec in enumerate(self.compiled.recorder_specs):
        bins = []
        for h in range(len(spec.histograms)):
            k = self.compiled.rec_hist_start[r] + h
            first = self.compiled.hist_offset[k]
            bins.append(self.data["rec_bins"][first:first + self.compiled.hist_na[k] * self.compiled.hist_nb[k]])
        out[spec.name] = RecorderResult(spec, self.data["rec_distinct"][r], self.data["rec_crossings"][r], self.data["rec_sums"][r], bins)
    return out


@spec("pvtrace/engine/api.py:EngineResult._node_name", props="P17", domain={"sym:index": [-2, -1, 0, 1, 2]})
def node_name(self, index):
    if index < 0:
        return None
    return self.compiled.node_names[index]


@spec("pvtrace/engine/api.py:EngineResult._component_name", props="P17", domain={"sym:index": [-2, -1, 0, 1, 2]})
def component_name(self, index):
    if index < 0:
        return None
    return self.compiled.component_names[index]


def name_of(names, index):
    if index < 0:
        return None
    return names[index]


@spec("pvtrace/engine/api.py:EngineResult.histories", props="P17", trials=150)
def histories(self):
    d = self.data
    for j in range(len(d["counts"])):
        steps = []
        for k in range(int(d["counts"][j])):
            row = j * self.max_events + k
            if int(d["source"][row]) < 0:
                source = self.sources[int(self.recorded_indices[j])]
            else:
                source = self.compiled.component_names[int(d["source"][row])]
            ray = Ray(position=tuple(d["position"][row].tolist()), direction=tuple(d["direction"][row].tolist()), wavelength=d["wavelength"][row],
                      travelled=d["travelled"][row], duration=d["duration"][row], source=source)
            event = Event(int(d["kind"][row]))
            meta = {"hit": name_of(self.compiled.node_names, int(d["hit"][row])), "container": name_of(self.compiled.node_names, int(d["container"][row])),
                    "adjacent": name_of(self.compiled.node_names, int(d["adjacent"][row])), "component": name_of(self.compiled.component_names, int(d["component"][row]))}
            if event is Event.REFLECT or event is Event.TRANSMIT:
                meta["normal"] = tuple(d["normal"][row].tolist())
            steps.append((ray, event, meta))
        yield steps


@spec("pvtrace/engine/api.py:EngineResult.event_counts", props="P17", domain={"attr:max_events": [1, 2, 3]})
def event_counts(self):
    counts = self.data["counts"]
    if len(counts) == 0:
        return collections.Counter()
    kinds = self.data["kind"].reshape(len(counts), self.max_events)
    logged = np.arange(self.max_events)[None, :] < counts[:, None]
    values, tallies = np.unique(kinds[logged], return_counts=True)
    out = {}
    for v, t in zip(values, tallies):
        out[Event(int(v))] = int(t)
    return collections.Counter(out)


# ---------------------------------------------------------------- running

@spec("pvtrace/engine/api.py:simulate", props="P02 P06 P10 P14 P16 P18", abstract={"compile_scene": "effect", "emit_bundle": "effect"}, domain={"sym:emit_method": ["kT", "redshift", "full", "none"], "sym:seed": [None, "$int"], "sym:workers": [None, "$int"], "sym:num_rays": "$int", "sym:maxsteps": "$int", "sym:max_events": "$int", "sym:record_every": "$int"})
def simulate(scene, num_rays, seed=None, workers=None, maxsteps=1000, max_events=128, emit_method="kT", record_every=1):
    from pvtrace.engine import _kernel
    codes = {"kT": 0, "redshift": 1, "full": 2}
    if emit_method not in codes:
        raise ValueError()
    compiled = compile_scene(scene)
    if workers is None:
        workers = max(1, multiprocessing.cpu_count() // 2)
    if seed is None:
        seed = np.random.randint(0, 2 ** 31 - 1)
    positions, directions, wavelengths, sources = emit_bundle(scene, num_rays)
    start = time.perf_counter()
    data = _kernel.trace_bundle(compiled, positions, directions, wavelengths, int(seed), maxsteps, max_events, codes[emit_method], workers, record_every)
    return EngineResult(compiled, data, sources, max_events, record_every, time.perf_counter() - start)


@spec("pvtrace/engine/api.py:simulate_stream", props="P18", abstract={"simulate": "effect"}, domain={"sym:num_rays": [0, 1, 2, 3, 5], "sym:bundle": [1, 2, 3, 7], "sym:seed": [None, "$int"], "sym:**": {"workers?": "$int", "record_every?": [0, 1, 2], "maxsteps?": "$int"}}, rounds=7)
def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
    if seed is None:
        seed = np.random.randint(0, 2 ** 31 - 1)
    done = 0
    while done < num_rays:
        n = bundle
        if num_rays - done < n:
            n = num_rays - done
        result = simulate(scene, n, seed=int(seed) + done, **kwargs)
        done = done + n
        yield result, done


# ---------------------------------------------------------------- tallies

@spec("pvtrace/engine/tally.py:_local_position", props="P07 P15", opaque=("point_to_node",))
def local_position(root, node, position):
    if node is root:
        return position
    return root.point_to_node(position, node)


@spec("pvtrace/engine/tally.py:_incidence_angle", props="P15", domain={"sym:direction": ["$uvec", "$axis"], "sym:normal": ["$uvec", "$axis"]})
def incidence_angle(direction, normal):
    c = abs(np.dot(direction, normal))
    if c > 1.0:
        c = 1.0
    return np.arccos(c)


@spec("pvtrace/engine/tally.py:_matches", props="P15", domain={"attr:event": ["entering", "escaping", "reflected", "lost", "reacted", "killed", "exit"], "sym:event": "$event"}, trials=1500)
def matches(recorder, node, event, metadata):
    kind = recorder.event
    hit, container, adjacent = metadata.get("hit"), metadata.get("container"), metadata.get("adjacent")
    if event == Event.TRANSMIT:
        if kind == "entering":
            return hit == node.name and adjacent == node.name
        if kind == "escaping":
            return hit == node.name and container == node.name
    if event == Event.REFLECT and kind == "reflected":
        return hit == node.name and adjacent == node.name
    if event == Event.NONRADIATIVE and kind == "lost":
        return container == node.name
    if event == Event.REACT and kind == "reacted":
        return container == node.name
    if event == Event.KILL and kind == "killed":
        return container == node.name
    if event == Event.EXIT and kind == "exit":
        return hit == node.name
    return False


@spec("pvtrace/engine/tally.py:_bin_index", props="P15", domain={"sym:value": "$num", "attr:start": "$num", "attr:stop": "$num", "attr:bins": [1, 2, 3, 5, 10]}, trials=200)
def bin_index(value, hist):
    if value < hist.start or value >= hist.stop:
        return -1
    i = int((value - hist.start) * hist.bins / (hist.stop - hist.start))
    if i < 0 or i >= hist.bins:
        return -1
    return i


@spec("pvtrace/engine/tally.py:_TallyState.__init__", props="P15", domain={"attr:histograms": ("seq", ("is", "Histogram", "Heatmap")), "attr:bins": "$int"}, alloc=False, trials=150)
def tally_state(self, recorder):
    self.recorder = recorder
    self.rays = 0
    self.crossings = 0
    self.moments = np.zeros((4, 2))
    self.bins = []
    for h in recorder.histograms:
        if isinstance(h, Heatmap):
            self.bins.append(np.zeros(h.a.bins * h.b.bins, dtype=np.int64))
        else:
            self.bins.append(np.zeros(h.bins, dtype=np.int64))


@spec("pvtrace/engine/tally.py:_TallyState.accumulate", props="P15", opaque=("_bin_index",), domain={"attr:histograms": ("seq", ("is", "Histogram", "Heatmap")), "attr:prop": ["wavelength", "angle", "duration", "pathlength", "x", "y", "z"], "attr:bins": ("self", ("seq", "$obj"), "$int"), "pcall:_bin_index": [-1, 0, 1, 2], "attr:rays": "$int"}, trials=150)
def accumulate(self, values):
    self.rays = self.rays + 1
    for i in range(4):
        v = values[("wavelength", "angle", "duration", "pathlength")[i]]
        self.moments[i, 0] += v
        self.moments[i, 1] += v * v
    for h, bins in zip(self.recorder.histograms, self.bins):
        if isinstance(h, Heatmap):
            i = _bin_index(values[h.a.prop], h.a)
            j = _bin_index(values[h.b.prop], h.b)
            if i >= 0 and j >= 0:
                bins[i * h.b.bins + j] += 1
        else:
            i = _bin_index(values[h.prop], h)
            if i >= 0:
                bins[i] += 1


@spec("pvtrace/engine/tally.py:tally_histories", props="P15 P07", opaque=("_matches", "_local_position", "_incidence_angle", "normal", "vector_to_node"), abstract={"accumulate": "effect"}, maxlen=3,
      domain={"call:anytree.PreOrderIter": ("seq", "$obj"), "sym:histories": ("seq", ("seq", ("tuple", "$obj", "$event", [None, {}, {"normal?": [None, "$axis", "$axis"], "hit?": "$opq"}]))), "attr:recorders": ("seq", "$obj"), "attr:facet": [None, None, "$axis"], "attr:atol": ["$pos", 3.0], "pcall:_matches": "$bool",
              "pcall:_local_position": "$vec", "mcall:normal": "$vec", "pcall:vector_to_node": "$vec"}, trials=900)
def tally_histories(scene, histories):
    root = scene.root
    watched = []
    for node in PreOrderIter(root):
        for recorder in getattr(node, "recorders", []):
            watched.append((node, recorder, _TallyState(recorder)))
    for history in histories:
        counted = set()
        before = None
        for ray, event, metadata in history:
            metadata = metadata or {}
            for node, recorder, state in watched:
                if not _matches(recorder, node, event, metadata):
                    continue
                normal = metadata.get("normal")
                if event == Event.EXIT and normal is None:
                    normal = node.vector_to_node(node.geometry.normal(_local_position(root, node, ray.position)), root)
                if recorder.facet is not None:
                    if normal is None:
                        continue
                    if any(abs(f - n) > recorder.atol for f, n in zip(recorder.facet, normal)):
                        continue
                state.crossings += 1
                if recorder.name in counted:
                    continue
                counted.add(recorder.name)
                incident = before or ray
                if event == Event.EXIT:
                    incident = ray
                angle = 0.0
                if normal is not None:
                    angle = _incidence_angle(incident.direction, normal)
                p = _local_position(root, node, ray.position)
                state.accumulate({"wavelength": ray.wavelength, "angle": angle, "duration": ray.duration, "pathlength": ray.travelled, "x": p[0], "y": p[1], "z": p[2]})
            before = ray
    out = {}
    for node, recorder, state in watched:
        out[recorder.name] = RecorderResult(recorder, state.rays, state.crossings, state.moments, state.bins)
    return out
