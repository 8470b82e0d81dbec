"""The luminescent solar concentrator device (pvtrace.device.lsc)."""
import functools
import numpy as np
import pandas as pd
from dataclasses import asdict
from pvtrace.algorithm import photon_tracer
from pvtrace.data import lumogen_f_red_305
from pvtrace.geometry.box import Box
from pvtrace.geometry.utils import EPS_ZERO
from pvtrace.light.event import Event
from pvtrace.light.light import Light
from pvtrace.material.component import Absorber, Luminophore, Scatterer
from pvtrace.material.material import Material
from pvtrace.material.surface import FresnelSurfaceDelegate, Surface
from pvtrace.material.utils import cone, lambertian
from pvtrace.scene.node import Node
from pvtrace.scene.renderer import MeshcatRenderer
from pvtrace.scene.scene import Scene
from pvtrace.device.lsc import AirGapMirror, OptionalMirrorAndSolarCell


def on_cell(normal, cells):
    if np.allclose(normal, (-1, 0, 0)) and "left" in cells:
        return True
    if np.allclose(normal, (1, 0, 0)) and "right" in cells:
        return True
    if np.allclose(normal, (0, -1, 0)) and "near" in cells:
        return True
    if np.allclose(normal, (0, 1, 0)) and "far" in cells:
        return True
    return False


@spec("pvtrace/device/lsc.py:OptionalMirrorAndSolarCell.reflectivity", props="P35", trials=1000, opaque=("FresnelSurfaceDelegate.reflectivity",), domain={
    "mcall:normal": [("tuple", [0], [0], [-1]), "$axis"], "attr:_solar_cell_surfaces": [{"left?": [1], "right?": [1], "near?": [1], "far?": [1], "bottom?": [1], "top?": [1]}, {"left?": [1], "right?": [1], "near?": [1], "far?": [1], "bottom?": [1], "top?": [1]}, {"left": [1]}, {"right": [1]}, {"near": [1]}, {"far": [1]}], "attr:_back_surface_mirror_info": {"want_back_surface_mirror": "$bool"}})
def cell_reflectivity(self, surface, ray, geometry, container, adjacent):
    normal = geometry.normal(ray.position)
    if np.allclose(normal, (0, 0, -1)) and self.lsc._back_surface_mirror_info["want_back_surface_mirror"]:
        return 1.0
    if on_cell(normal, self.lsc._solar_cell_surfaces):
        return 0.0
    return FresnelSurfaceDelegate.reflectivity(self, surface, ray, geometry, container, adjacent)


@spec("pvtrace/device/lsc.py:OptionalMirrorAndSolarCell.transmitted_direction", props="P35", trials=700, opaque=("FresnelSurfaceDelegate.transmitted_direction",), domain={
    "mcall:normal": "$axis", "attr:_solar_cell_surfaces": [{"left?": [1], "right?": [1], "near?": [1], "far?": [1], "bottom?": [1], "top?": [1]}, {"left?": [1], "right?": [1], "near?": [1], "far?": [1], "bottom?": [1], "top?": [1]}, {"left": [1]}, {"right": [1]}, {"near": [1]}, {"far": [1]}]})
def cell_transmitted(self, surface, ray, geometry, container, adjacent):
    if on_cell(geometry.normal(ray.position), self.lsc._solar_cell_surfaces):
        return ray.direction
    return FresnelSurfaceDelegate.transmitted_direction(self, surface, ray, geometry, container, adjacent)


@spec("pvtrace/device/lsc.py:AirGapMirror.reflectivity", props="P35")
def gap_reflectivity(self, surface, ray, geometry, container, adjacent):
    return 1.0


@spec("pvtrace/device/lsc.py:AirGapMirror.reflected_direction", trials=400, props="P35", opaque=("FresnelSurfaceDelegate.reflected_direction", "lambertian"), domain={"mcall:normal": "$axis", "attr:_air_gap_mirror_info": {"lambertian": "$bool"}})
def gap_reflected(self, surface, ray, geometry, container, adjacent):
    if self.lsc._air_gap_mirror_info["lambertian"]:
        if np.allclose(geometry.normal(ray.position), (0.0, 0.0, 1.0)):
            return tuple(lambertian().tolist())
        raise NotImplementedError("other surfaces")
    return FresnelSurfaceDelegate.reflected_direction(self, surface, ray, geometry, container, adjacent)


@spec("pvtrace/device/lsc.py:LSC.__init__", props="P35", domain={"wavelength_range": [None, "$opq"]})
def init(self, size, wavelength_range=None, n0=1.0, n1=1.5):
    if wavelength_range is None:
        self.wavelength_range = np.arange(400, 800)
    else:
        self.wavelength_range = wavelength_range
    self.size = size
    self.n0 = n0
    self.n1 = n1
    self._solar_cell_surfaces = set()
    self._back_surface_mirror_info = {"want_back_surface_mirror": False}
    self._air_gap_mirror_info = {"want_air_gap_mirror": False, "lambertian": False}
    self._scene = None
    self._renderer = None
    self._store = None
    self._df = None
    self._counts = None
    self._user_lights = []
    self._user_components = []


@spec("pvtrace/device/lsc.py:LSC._make_default_components", props="P35", opaque=("absorption", "emission"), domain={"attr:wavelength_range": "$nums3", "pcall:absorption": "$nums3", "pcall:emission": "$nums3"})
def default_components(self):
    x = self.wavelength_range
    return [{"cls": Luminophore, "name": "Lumogen F Red 305", "coefficient": np.column_stack((x, 10.0 * lumogen_f_red_305.absorption(x))),
             "emission": np.column_stack((x, lumogen_f_red_305.emission(x))), "quantum_yield": 1.0, "phase_function": None},
            {"cls": Absorber, "coefficient": 0.1, "name": "Background"}]


@spec("pvtrace/device/lsc.py:LSC._make_default_lights", props="P35", domain={"attr:size": "$pos3"})
def default_lights(self):
    return [{"name": "Light", "location": (0.0, 0.0, 5 * self.size[2]), "rotation": (np.radians(180), (1, 0, 0)),
             "direction": functools.partial(cone, np.radians(20)), "wavelength": None, "position": None}]


@spec("pvtrace/device/lsc.py:LSC.component_names", props="P35", domain={"attr:_scene": [None, "$obj"], "attr:_user_components": ("seq", {"name": ["a", "b"]})})
def component_names(self):
    if self._scene is None:
        raise ValueError("simulate first")
    return set([c["name"] for c in self._user_components])


@spec("pvtrace/device/lsc.py:LSC.light_names", props="P35", domain={"attr:_scene": [None, "$obj"], "attr:_user_lights": ("seq", {"name": ["a", "b"]})})
def light_names(self):
    if self._scene is None:
        raise ValueError("simulate first")
    return set([c["name"] for c in self._user_lights])


@spec("pvtrace/device/lsc.py:LSC.add_luminophore", props="P35", heap_on_raise=True)
def add_luminophore(self, name, coefficient, emission, quantum_yield, phase_function=None):
    self._user_components.append({"cls": Luminophore, "name": name, "coefficient": coefficient, "emission": emission, "quantum_yield": quantum_yield, "phase_function": phase_function})


@spec("pvtrace/device/lsc.py:LSC.add_absorber", props="P35")
def add_absorber(self, name, coefficient):
    self._user_components.append({"cls": Absorber, "name": name, "coefficient": coefficient})


@spec("pvtrace/device/lsc.py:LSC.add_scatterer", props="P35")
def add_scatterer(self, name, coefficient, phase_function=None):
    self._user_components.append({"cls": Scatterer, "name": name, "coefficient": coefficient, "phase_function": phase_function})


@spec("pvtrace/device/lsc.py:LSC.add_light", props="P35")
def add_light(self, name, location, rotation=None, direction=None, wavelength=None, position=None):
    self._user_lights.append({"name": name, "location": location, "rotation": rotation, "direction": direction, "wavelength": wavelength, "position": position})


@spec("pvtrace/device/lsc.py:LSC.add_solar_cell", props="P35", trials=200, heap_on_raise=True, domain={"facets": [("seq", ["left", "right", "near", "far"]), ("seq", ["left", "top", "near", "far"]), ("seq", ["bottom", "near"]), "left", "$num"],
                                                                                   "attr:_solar_cell_surfaces": ("set", ["left", "right", "near", "far"])})
def add_solar_cell(self, facets):
    if not isinstance(facets, (list, tuple, set)):
        raise ValueError("facets")
    for f in set(facets):
        if f != "left" and f != "right" and f != "near" and f != "far":
            raise ValueError("facets")
    self._solar_cell_surfaces = set(facets) | self._solar_cell_surfaces


@spec("pvtrace/device/lsc.py:LSC.add_back_surface_mirror", props="P35")
def add_back_surface_mirror(self):
    self._back_surface_mirror_info = {"want_back_surface_mirror": True}


@spec("pvtrace/device/lsc.py:LSC.add_air_gap_mirror", props="P35")
def add_air_gap_mirror(self, lambertian=False):
    self._air_gap_mirror_info = {"want_air_gap_mirror": True, "lambertian": lambertian}


@spec("pvtrace/device/lsc.py:LSC._make_scene", props="P35", trials=200, abstract={"Box": "pure", "Material": "pure", "Surface": "pure", "OptionalMirrorAndSolarCell": "pure", "AirGapMirror": "pure", "Node": "effect", "Light": "effect", "Scene": "effect", "_make_default_components": "pure", "_make_default_lights": "pure"},
      domain={"attr:size": "$pos3", "attr:_air_gap_mirror_info": {"want_air_gap_mirror": "$bool"}, "attr:_user_components": ("seq", {"cls": "$opq", "name": ["a", "b"], "coefficient": "$num", "quantum_yield?": "$num", "phase_function?": [None, "$opq"], "emission?": "$opq"}), "pcall:_make_default_components": ("seq", {"cls": "$opq", "name": ["a", "b"], "coefficient": "$num", "quantum_yield": "$num"}),
              "attr:_user_lights": ("seq", {"name": ["s1", "s2"], "direction": [None, "$opq"], "wavelength": [None, "$opq"], "position": [None, "$opq"], "location": "$vec", "rotation": [None, ("tuple", "$num", "$axis")]}),
              "pcall:_make_default_lights": ("seq", {"name": ["s1", "s2"], "direction": [None, "$opq"], "wavelength": [None, "$opq"], "position": [None, "$opq"], "location": "$vec", "rotation": [None, ("tuple", "$num", "$axis")]})})
def make_scene(self):
    l, w, d = self.size
    world = Node(name="World", geometry=Box((100 * l, 100 * w, 100 * d), material=Material(refractive_index=self.n0)))
    if len(self._user_components) == 0:
        self._user_components = self._make_default_components()
    components = []
    for data in self._user_components:
        cls = data.pop("cls")
        coefficient = data.pop("coefficient")
        components.append(cls(coefficient, **data))
    lsc = Node(name="LSC", geometry=Box((l, w, d), material=Material(refractive_index=self.n1, components=components, surface=Surface(delegate=OptionalMirrorAndSolarCell(self)))), parent=world)
    if self._air_gap_mirror_info["want_air_gap_mirror"]:
        mirror = Node(name="Air Gap Mirror", geometry=Box((l, w, d / 4), material=Material(refractive_index=self.n0, components=[], surface=Surface(delegate=AirGapMirror(self)))), parent=world)
        mirror.translate((0.0, 0.0, -(d / 2 + d / 4)))
    if len(self._user_lights) == 0:
        self._user_lights = self._make_default_lights()
    for data in self._user_lights:
        light = Light(name=data["name"], direction=data["direction"], wavelength=data["wavelength"], position=data["position"])
        node = Node(name=data["name"], light=light, parent=world)
        node.location = data["location"]
        if data["rotation"]:
            node.rotate(*data["rotation"])
    self._scene = Scene(world)


@spec("pvtrace/device/lsc.py:LSC.simulate", props="P35", trials=200, abstract={"_make_scene": {"sets": ["_scene"]}, "follow": "effect", "_make_dataframe": "effect", "expand_coords": "effect", "label_facets": "effect", "emit": "effect", "add_history": "effect"},
      domain={"attr:_scene": [None, "$obj"], "attr:_renderer": [None, "$obj"], "progress": [None, "$opq"], "attr:size": "$pos3", "attr:_store": [None, {"entrance_rays": "$seq", "exit_rays": "$seq"}], "eff:follow": [("tuple", ("tuple", "$obj", "$event"), ("tuple", "$obj", "$event")), ("tuple", ("tuple", "$obj", "$event"), ("tuple", "$obj", "$event"), ("tuple", "$obj", "$event")), ("tuple", ("tuple", "$obj", "$event"), ("tuple", "$obj", "$event"), ("tuple", "$obj", "$event"), ("tuple", "$obj", "$event"))], "mcall:emit": "$seq", "attr:_add_history_kwargs": {"k": "$num"}})
def simulate(self, n, progress=None, emit_method="kT"):
    if self._scene is None:
        self._make_scene()
    scene = self._scene
    if self._store is None:
        self._store = {"entrance_rays": [], "exit_rays": []}
    store = self._store
    self._counts = None
    count = 0
    for ray in scene.emit(n):
        history = photon_tracer.follow(scene, ray, emit_method=emit_method)
        store["entrance_rays"].append((history[1][0], history[1][1]))
        last = history[-1][1]
        if last == Event.NONRADIATIVE or last == Event.REACT or last == Event.KILL:
            store["exit_rays"].append((history[-1][0], last))
        elif last == Event.EXIT:
            store["exit_rays"].append((history[-2][0], history[-2][1]))
        if self._renderer:
            self._renderer.add_history(history, **self._add_history_kwargs)
        if progress:
            count += 1
            progress(count)
    df = self._make_dataframe()
    df = self.expand_coords(df, "direction")
    df = self.expand_coords(df, "position")
    l, w, d = self.size
    self._df = self.label_facets(df, l, w, d)


@spec("pvtrace/device/lsc.py:LSC._make_dataframe", props="P35", domain={"attr:_store": {"entrance_rays": ("seq", ("tuple", "$obj", "$event")), "exit_rays": ("seq", ("tuple", "$obj", "$event"))}, "call:dataclasses.asdict": {"position": "$vec", "wavelength": "$num", "source": ["s1", "s2"]}})
def make_dataframe(self):
    rows = []
    for ray, event in self._store["entrance_rays"]:
        row = asdict(ray)
        row["kind"] = "entrance"
        row["event"] = event.name.lower()
        rows.append(row)
    for ray, event in self._store["exit_rays"]:
        row = asdict(ray)
        row["kind"] = "exit"
        row["event"] = event.name.lower()
        rows.append(row)
    self._df = pd.DataFrame(rows)
    return self._df


@spec("pvtrace/device/lsc.py:LSC.expand_coords", props="P35", domain={"call:numpy.stack": ("tuple", "$vec", "$vec"), "column": ["position", "direction"]})
def expand_coords(self, df, column):
    coords = np.stack(df[column].values)
    df["{}_x".format(column)] = coords[:, 0]
    df["{}_y".format(column)] = coords[:, 1]
    df["{}_z".format(column)] = coords[:, 2]
    df.drop(columns=column, inplace=True)
    return df


@spec("pvtrace/device/lsc.py:LSC.label_facets", props="P35", domain={"length": [2], "width": [4], "height": [6], "idx:position_x": ("tuple", ("near", -1, 1), ("near", -1, 1, -2), ["$num"]), "idx:position_y": ("tuple", ("near", -2, 2), ("near", -2, 2), ["$num"]), "idx:position_z": ("tuple", ("near", -3, 3), ("near", -3, 3, 2), ["$num"])})
def label_facets(self, df, length, width, height):
    df.loc[np.isclose(df["position_x"], -length / 2, atol=EPS_ZERO), "facet"] = "left"
    df.loc[np.isclose(df["position_x"], length / 2, atol=EPS_ZERO), "facet"] = "right"
    df.loc[np.isclose(df["position_y"], -width / 2, atol=EPS_ZERO), "facet"] = "near"
    df.loc[np.isclose(df["position_y"], width / 2, atol=EPS_ZERO), "facet"] = "far"
    df.loc[np.isclose(df["position_z"], -height / 2, atol=EPS_ZERO), "facet"] = "bottom"
    df.loc[np.isclose(df["position_z"], height / 2, atol=EPS_ZERO), "facet"] = "top"
    return df


@spec("pvtrace/device/lsc.py:LSC._make_counts", props="P35", abstract={"spectrum": "pure"}, domain={"attr:_counts": [None, "$obj"]})
def make_counts(self, df):
    if self._counts is not None:
        return self._counts
    components = set([c.name for c in self._scene.component_nodes])
    lights = set([c.name for c in self._scene.light_nodes])
    solar_in = {}
    solar_out = {}
    lum_in = {}
    lum_out = {}
    for facet in ("left", "right", "near", "far", "top", "bottom"):
        solar_out[facet] = self.spectrum(facets={facet}, source=lights, kind="last").shape[0]
        solar_in[facet] = self.spectrum(facets={facet}, source=lights, kind="first").shape[0]
        lum_out[facet] = self.spectrum(facets={facet}, source=components, kind="last").shape[0]
        lum_in[facet] = self.spectrum(facets={facet}, source=components, kind="first").shape[0]
    self._counts = pd.DataFrame({"Solar In": pd.Series(solar_in), "Solar Out": pd.Series(solar_out), "Luminescent Out": pd.Series(lum_out), "Luminescent In": pd.Series(lum_in)},
                                index=["left", "right", "near", "far", "top", "bottom"])
    return self._counts


@spec("pvtrace/device/lsc.py:LSC.spectrum", props="P35", trials=600, abstract={"component_names": "pure", "light_names": "pure"}, domain={"attr:_df": [None, "$obj", "$obj", "$obj", "$obj", "$obj", "$obj"], "kind": [None, "first", "last", "first", "last", "other"], "idx:kind": ("tuple", ["entrance", "exit"], ["entrance", "exit"], ["entrance", "exit"]), "idx:source": ("tuple", ["aa", "bb", "xx"], ["aa", "bb"], ["bb", "cc"]),
      "idx:facet": ("tuple", ["left", "top", "-"], ["right", "bottom", "-"], ["top", "left"]), "idx:event": ("tuple", ["absorb", "exit"], ["exit", "emit"], ["emit", "nonradiative"]), "source": ["all", "aa", "bb", "all", "aa", "bb", "xx", ("set", ["aa", "cc"]), ("set", ["aa", "bb", "xx"])],
      "facets": [("seq", ["left", "top"]), ("tuple", ["left"], ["right"], ["near"], ["far"], ["top"], ["bottom"]), ("set", ["left", "top"]), ("set", ["right", "top"]), ("set", ["bottom", "top"]), "left"], "events": [None, None, ("set", ["absorb", "exit", "emit", "nonradiative"]), ("set", ["absorb", "exit", "emit", "kill"]), ("seq", ["exit", "lost"]), "exit"], "pcall:component_names": ("set", ["aa", "bb"], 4), "pcall:light_names": ("set", ["cc", "dd"], 3)})
def spectrum(self, facets=set(), kind="last", source="all", events=None):
    if self._df is None:
        raise ValueError("simulate first")
    df = self._df
    if kind is None:
        want_kind = True
    elif kind == "first":
        want_kind = df["kind"] == "entrance"
    elif kind == "last":
        want_kind = df["kind"] == "exit"
    else:
        raise ValueError("kind")
    known = self.component_names() | self.light_names()
    if source == "all":
        want_source = df["source"].isin(known)
    else:
        if isinstance(source, str):
            source = {source}
        if not set(source).issubset(known):
            raise ValueError("source")
        want_source = df["source"].isin(set(source))
    if not isinstance(facets, (list, tuple, set)):
        raise ValueError("facets")
    if len(facets) > 0:
        want_facets = df["facet"].isin(set(facets))
    else:
        want_facets = True
    if events is None:
        want_events = True
    else:
        if not isinstance(events, (list, tuple, set)):
            raise ValueError("events")
        if not set(events).issubset(set([e.name.lower() for e in Event])):
            raise ValueError("events")
        want_events = df["event"].isin(set(events))
    return df.loc[want_kind & want_source & want_facets & want_events]["wavelength"]


@spec("pvtrace/device/lsc.py:LSC.counts", props="P35", abstract={"_make_dataframe": "effect", "expand_coords": "effect", "label_facets": "effect", "_make_counts": "effect"}, domain={"attr:_df": [None, "$obj"], "attr:size": "$pos3"})
def counts(self):
    df = self._df
    if df is None:
        df = self._make_dataframe()
        df = self.expand_coords(df, "direction")
        df = self.expand_coords(df, "position")
        l, w, d = self.size
        df = self.label_facets(df, l, w, d)
    return self._make_counts(df)


COUNTS = {"left": "$pos", "right": "$pos", "near": "$pos", "far": "$pos", "top": "$pos", "bottom": "$pos"}


@spec("pvtrace/device/lsc.py:LSC.summary", props="P35", trials=300, abstract={"_make_counts": "effect", "spectrum": "pure", "component_names": "pure", "light_names": "pure"}, domain={"attr:size": "$pos3", "attr:_solar_cell_surfaces": ("set", ["left", "right", "near", "far"]), "attr:n1": "$pos", "attr:shape": ("tuple", "$pos"),
      "eff:_make_counts": {"Solar In": {"left": "$pos", "right": "$pos", "near": "$pos", "far": "$pos", "top": "$pos", "bottom": "$pos"}, "Luminescent Out": {"left": "$pos", "right": "$pos", "near": "$pos", "far": "$pos", "top": "$pos", "bottom": "$pos"}}})
def summary(self):
    counts = self._make_counts(self._df)
    collected = 0
    for facet in self._solar_cell_surfaces:
        collected += counts["Luminescent Out"][facet]
    escaped = 0
    for facet in {"left", "right", "near", "far", "top", "bottom"} - self._solar_cell_surfaces:
        escaped += counts["Luminescent Out"][facet]
    incident = 0
    for facet in ("left", "right", "near", "far", "top", "bottom"):
        incident += counts["Solar In"][facet]
    lost = self.spectrum(source="all", events={"nonradiative"}, kind="last").shape[0]
    l, w, d = self.size
    cg = (w * l) / (2 * l * d + 2 * w * d)
    n = self.n1
    return pd.Series({"Optical Efficiency": collected / incident, "Waveguide Efficiency": collected / (collected + escaped), "Waveguide Efficiency (Thermodynamic Prediction)": n ** 2 / (cg + n ** 2),
                      "Non-radiative Loss (fraction):": lost / incident, "Incident": incident, "Geometric Concentration": cg, "Refractive Index": n, "Cell Surfaces": self._solar_cell_surfaces,
                      "Components": self.component_names(), "Lights": self.light_names()})


@spec("pvtrace/device/lsc.py:LSC.report", props="P35", abstract={"counts": "effect", "summary": "effect"})
def report(self):
    print(self.counts())
    print(self.summary())


@spec("pvtrace/device/lsc.py:LSC.show", props="P35 P42", trials=100, ignore=("time.sleep",), abstract={"_make_scene": {"sets": ["_scene"]}, "MeshcatRenderer": "pure", "render": "effect"}, domain={"attr:size": "$pos3", "attr:_scene": [None, "$obj"], "bauble_radius": [None, 0.0, "$pos"], "short_length": [None, 0.0, "$pos"], "baubles": "$bool", "wireframe": "$bool", "open_browser": "$bool", "world_segment": ["short", "exclude"]})
def show(self, wireframe=True, baubles=True, bauble_radius=None, world_segment="short", short_length=None, open_browser=False):
    least = min(self.size[0], self.size[1], self.size[2])
    self._add_history_kwargs = {
        "bauble_radius": least * 0.05 if bauble_radius is None else bauble_radius,
        "baubles": baubles,
        "world_segment": world_segment,
        "short_length": least * 0.1 if short_length is None else short_length,
    }
    if self._scene is None:
        self._make_scene()
    self._renderer = MeshcatRenderer(open_browser=open_browser, transparency=False, opacity=0.5, wireframe=wireframe, max_histories=50)
    self._renderer.render(self._scene)
    return self._renderer
