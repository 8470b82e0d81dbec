"""What compiling a scene for the engine has to produce."""
import numpy as np
from anytree import PreOrderIter
from pvtrace.geometry.box import Box
from pvtrace.geometry.sphere import Sphere
from pvtrace.geometry.cylinder import Cylinder
from pvtrace.material.surface import FresnelSurfaceDelegate, NullSurfaceDelegate
from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
from pvtrace.engine.compiler import UnsupportedSceneError
from pvtrace.engine.recorder import EVENTS, PROPERTIES, Heatmap, Recorder


@spec("pvtrace/engine/compiler.py:CompiledScene._compile_geometry", props="P10 P11 P12", domain={"attr:_size": "$pos3"})
def compile_geometry(self, i, geometry):
    if isinstance(geometry, Box):
        self.geom_type[i] = 0
        self.geom_params[i, :3] = geometry._size
    elif isinstance(geometry, Sphere):
        self.geom_type[i] = 1
        self.geom_params[i, 0] = geometry.radius
    elif isinstance(geometry, Cylinder):
        self.geom_type[i] = 2
        self.geom_params[i, 0] = geometry.length
        self.geom_params[i, 1] = geometry.radius
    else:
        raise UnsupportedSceneError()


@spec("pvtrace/engine/compiler.py:CompiledScene._compile_transform", props="P07 P11 P12", opaque=("transformation_to",), domain={"pcall:transformation_to": ["$affine", "$mat4", "$rigid", "$rigid", "$nearrigid", "$nearrigid", "$nearrigid"]}, trials=200)
def compile_transform(self, i, node, root):
    pose = node.transformation_to(root)
    if not np.allclose(pose[:3, :3] @ pose[:3, :3].T, np.eye(3), rtol=1e-5, atol=1e-9):
        raise UnsupportedSceneError()
    self.local_to_world[i] = pose
    self.world_to_local[i] = np.linalg.inv(pose)


@spec("pvtrace/engine/compiler.py:CompiledScene._surface_tag", props="P10 P11 P12")
def surface_tag(self, node, material):
    kind = type(material.surface.delegate)
    if kind is FresnelSurfaceDelegate:
        return 0
    if kind is NullSurfaceDelegate:
        return 1
    raise UnsupportedSceneError()


@spec("pvtrace/engine/compiler.py:CompiledScene._phase_tag", props="P10 P11 P12")
def phase_tag(self, node, component):
    phase = component.phase_function
    if phase is isotropic:
        return 0, 0.0
    if isinstance(phase, HenyeyGreenstein):
        return 1, phase.g
    if isinstance(phase, Cone):
        return 2, phase.theta_max
    raise UnsupportedSceneError()


@spec("pvtrace/engine/compiler.py:CompiledScene._compile_distribution", props="P11 P12", params={"xs": "list", "ys": "list"}, domain={"attr:_x": ["$nums", "$nums", None], "attr:_y": ["$nums", "$num"], "attr:hist": [False, False, True]}, trials=160)
def compile_distribution(self, node, dist, xs, ys):
    if dist.hist:
        raise UnsupportedSceneError()
    start = len(xs)
    if dist._x is None:
        xs.append(0.0)
        ys.append(dist._y)
        return start, 1
    for x in dist._x:
        xs.append(x)
    for y in dist._y:
        ys.append(y)
    return start, len(dist._x)


@spec("pvtrace/engine/compiler.py:CompiledScene._compile_component", props="P04 P06 P10 P11 P12", opaque=("_phase_tag",), abstract={"_compile_distribution": {"grow": (3, 4)}},
      params={"abs_x": "list", "abs_y": "list", "ems_x": "list", "ems_cdf": "list"}, domain={"attr:_x": "$nums", "attr:_cdf": "$nums", "attr:hist": [False, False, True]}, trials=200)
def compile_component(self, node, component, abs_x, abs_y, ems_x, ems_cdf):
    if isinstance(component, Reactor):
        code = 3
    elif isinstance(component, Absorber):
        code = 0
    elif isinstance(component, Luminophore):
        code = 2
    elif isinstance(component, Scatterer):
        code = 1
    else:
        raise UnsupportedSceneError()
    phase, parameter = self._phase_tag(node, component)
    a, m = self._compile_distribution(node, component._abs_dist, abs_x, abs_y)
    e, k = 0, 0
    if code == 2:
        emission = component._ems_dist
        if emission.hist:
            raise UnsupportedSceneError()
        e = len(ems_x)
        for x in emission._x:
            ems_x.append(x)
        for y in emission._cdf:
            ems_cdf.append(y)
        k = len(emission._x)
    radiative = 0.0
    if component.tau_rad:
        radiative = component.tau_rad
    other = 0.0
    if component.tau_nr:
        other = component.tau_nr
    return [code, component.quantum_yield, radiative, other, phase, parameter, a, m, e, k]


@spec("pvtrace/engine/compiler.py:CompiledScene._compile_recorders", props="P10 P11 P12 P15", symbols=("MAX_RECORDERS",),
      domain={"attr:recorders": [("seq", ("is", "Recorder")), ("seq", ("is", "Recorder")), ("seq", "$any")], "attr:name": ["r1", "r2", "r3", "r4", "r5"], "attr:histograms": ("seq", ("is", "Histogram", "Heatmap")), "sym:nodes": ("seq", "$obj"), "attr:event": ["lost", "reacted", "killed", "entering", "escaping", "reflected", "entering", "escaping", "reflected"], "attr:facet": ["$vec", None, None, None], "attr:prop": ["wavelength", "angle", "duration", "pathlength", "x", "y", "z"],
              "sym:MAX_RECORDERS": [1, 3, 100], "attr:bins": "$int", "attr:start": "$num", "attr:stop": "$num"}, alloc=True, trials=500)
def compile_recorders(self, nodes):
    recorders = []
    for i, node in enumerate(nodes):
        for recorder in getattr(node, "recorders", []):
            if not isinstance(recorder, Recorder):
                raise UnsupportedSceneError()
            if recorder.event in {"lost", "reacted", "killed"} and recorder.facet is not None:
                raise UnsupportedSceneError()
            recorders.append((i, recorder))
    if len(recorders) > MAX_RECORDERS:
        raise UnsupportedSceneError()
    names = [r[1].name for r in recorders]
    if len(set(names)) != len(recorders):
        raise UnsupportedSceneError()
    n = len(recorders)
    self.recorder_names = names
    self.recorder_specs = [r[1] for r in recorders]
    self.rec_node = np.zeros(n, dtype=np.int32)
    self.rec_event = np.zeros(n, dtype=np.int32)
    self.rec_has_facet = np.zeros(n, dtype=np.int32)
    self.rec_facet = np.zeros((max(n, 1), 3), dtype=np.float64)
    self.rec_atol = np.zeros(n, dtype=np.float64)
    self.rec_hist_start = np.zeros(n, dtype=np.int32)
    self.rec_hist_n = np.zeros(n, dtype=np.int32)
    table = []
    offset = 0
    for k, (i, recorder) in enumerate(recorders):
        self.rec_node[k] = i
        self.rec_event[k] = EVENTS[recorder.event]
        if recorder.facet is not None:
            self.rec_has_facet[k] = 1
            self.rec_facet[k] = recorder.facet
        self.rec_atol[k] = recorder.atol
        self.rec_hist_start[k] = len(table)
        self.rec_hist_n[k] = len(recorder.histograms)
        for hist in recorder.histograms:
            if isinstance(hist, Heatmap):
                table.append([PROPERTIES[hist.a.prop], PROPERTIES[hist.b.prop], hist.a.bins, hist.b.bins,
                              hist.a.start, hist.a.stop, hist.b.start, hist.b.stop, offset])
                offset += hist.a.bins * hist.b.bins
            else:
                table.append([PROPERTIES[hist.prop], -1, hist.bins, 1, hist.start, hist.stop, 0.0, 1.0, offset])
                offset += hist.bins
    rows = np.zeros((0, 9))
    if table:
        rows = np.array(table, dtype=np.float64)
    self.hist_prop_a = rows[:, 0].astype(np.int32)
    self.hist_prop_b = rows[:, 1].astype(np.int32)
    self.hist_na = rows[:, 2].astype(np.int32)
    self.hist_nb = rows[:, 3].astype(np.int32)
    self.hist_lo_a = rows[:, 4].copy()
    self.hist_hi_a = rows[:, 5].copy()
    self.hist_lo_b = rows[:, 6].copy()
    self.hist_hi_b = rows[:, 7].copy()
    self.hist_offset = rows[:, 8].astype(np.int32)
    self.total_bins = offset


@spec("pvtrace/engine/compiler.py:CompiledScene.__init__", props="P04 P10 P11 P12", opaque=("_surface_tag",), abstract={"_compile_geometry": "effect", "_compile_transform": "effect", "_compile_component": {"grow": (3, 4, 5, 6)}, "_compile_recorders": "effect"}, alloc=True, symbols=("MAX_NODES",), trials=200,
      domain={"call:anytree.PreOrderIter": ("seq", "$obj"), "sym:MAX_NODES": [1, 2, 100, 100], "attr:geometry": ["$obj", "$obj", "$obj", "$obj", None], "attr:material": ["$obj", "$obj", "$obj", "$obj", "$obj", "$obj", None], "attr:components": ("seq", "$obj")})
def compiled_scene(self, scene):
    nodes = []
    for node in PreOrderIter(scene.root):
        if node.geometry is not None:
            nodes.append(node)
    if not nodes or scene.root.geometry is None or len(nodes) > MAX_NODES:
        raise UnsupportedSceneError()
    n = len(nodes)
    self.scene = scene
    self.nodes = nodes
    self.node_names = [x.name for x in nodes]
    self.root_id = nodes.index(scene.root)
    self.geom_type = np.zeros(n, dtype=np.int32)
    self.geom_params = np.zeros((n, 4), dtype=np.float64)
    self.local_to_world = np.zeros((n, 4, 4), dtype=np.float64)
    self.world_to_local = np.zeros((n, 4, 4), dtype=np.float64)
    self.refractive_index = np.zeros(n, dtype=np.float64)
    self.surface_type = np.zeros(n, dtype=np.int32)
    self.comp_start = np.zeros(n, dtype=np.int32)
    self.comp_count = np.zeros(n, dtype=np.int32)
    table = []
    self.component_names = []
    abs_x = []
    abs_y = []
    ems_x = []
    ems_cdf = []
    for i, node in enumerate(nodes):
        self._compile_geometry(i, node.geometry)
        self._compile_transform(i, node, scene.root)
        material = node.geometry.material
        if material is None:
            raise UnsupportedSceneError()
        self.refractive_index[i] = material.refractive_index
        self.surface_type[i] = self._surface_tag(node, material)
        self.comp_start[i] = len(table)
        self.comp_count[i] = len(material.components)
        for component in material.components:
            table.append(self._compile_component(node, component, abs_x, abs_y, ems_x, ems_cdf))
            self.component_names.append(component.name)
    rows = np.zeros((0, 10), dtype=np.float64)
    if table:
        rows = np.array(table, dtype=np.float64)
    self.comp_type = rows[:, 0].astype(np.int32)
    self.comp_qy = rows[:, 1].copy()
    self.comp_tau_rad = rows[:, 2].copy()
    self.comp_tau_nr = rows[:, 3].copy()
    self.comp_phase_type = rows[:, 4].astype(np.int32)
    self.comp_phase_param = rows[:, 5].copy()
    self.comp_abs_start = rows[:, 6].astype(np.int32)
    self.comp_abs_n = rows[:, 7].astype(np.int32)
    self.comp_ems_start = rows[:, 8].astype(np.int32)
    self.comp_ems_n = rows[:, 9].astype(np.int32)
    self.abs_x = np.array(abs_x, dtype=np.float64)
    self.abs_y = np.array(abs_y, dtype=np.float64)
    self.ems_x = np.array(ems_x, dtype=np.float64)
    self.ems_cdf = np.array(ems_cdf, dtype=np.float64)
    self._compile_recorders(nodes)
