"""How a scene file becomes objects."""
import numpy as np
import os
import trimesh
import pandas
from pvtrace import Scene, Box, Mesh, Cylinder, Sphere, Material, Node, Absorber, Scatterer, Luminophore, Light
from pvtrace.material.distribution import Distribution
from pvtrace.material.utils import isotropic, lambertian, Cone, HenyeyGreenstein
from pvtrace.cli.parse import SCHEMA, SPECTRUM_MODULES, auto_recorders, parse_recorders
import yaml
import json
import jsonschema
from pvtrace.engine.recorder import Heatmap, Histogram, Recorder
from pvtrace.light.light import (CubeMask, RectangularMask, CircularMask, ConstantWavelengthMask, SpectrumWavelengthMask)


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_spectrum", props="P31", abstract={"load_spectrum": "pure", "load_named_spectrum": "pure"}, domain={"spec": [{"file": "$opq"}, {"name": "$opq", "range?": "$opq"}]})
def spectrum(spec, named_type=None):
    if "file" in spec:
        return load_spectrum(spec["file"])
    if "name" in spec:
        return load_named_spectrum(spec, named_type)


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_material", props="P30 P31", opaque=("Material",), domain={"spec": {"refractive-index": ["$num", "$num", 0], "components?": ("seq", ["a", "b", "c"])}, "component_map": {"a?": "$obj", "b?": "$obj", "c": "$obj"}})
def material(spec, component_map):
    keys = spec["components"] if "components" in spec else []
    for k in keys:
        if k not in component_map:
            raise ValueError
    return Material(refractive_index=spec["refractive-index"], components=[component_map[k] for k in keys])


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_box", props="P31", opaque=("Box",), abstract={"parse_material": "pure"}, domain={"spec": {"size": "$vec", "material": "$opq"}})
def box(spec, component_map):
    return Box(size=spec["size"], material=parse_material(spec["material"], component_map))


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_absorber", props="P31", opaque=("Absorber",), abstract={"parse_spectrum": "pure"}, domain={"spec": {"coefficient?": [0, "$num"], "hist?": "$bool", "spectrum?": "$opq"}, "pcall:parse_spectrum": ("tuple", ("tuple", "$pos", "$pos"), ("tuple", "$pos", "$pos"))})
def absorber(spec, name):
    hist = spec.get("hist", False)
    if "spectrum" in spec:
        x = parse_spectrum(spec["spectrum"], named_type="absorption")
        if "coefficient" in spec:
            x[:, 1] = x[:, 1] / np.max(x[:, 1]) * spec["coefficient"]
        return Absorber(x, name=name, hist=hist)
    if "coefficient" in spec:
        return Absorber(spec["coefficient"], name=name)
    raise ValueError


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_cylinder", props="P31", opaque=("Cylinder",), abstract={"parse_material": "pure"}, domain={"spec": {"length": ["$num", 0], "radius": "$num", "material": "$opq"}})
def cylinder(spec, component_map):
    return Cylinder(length=spec["length"], radius=spec["radius"], material=parse_material(spec["material"], component_map))


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_sphere", props="P31", opaque=("Sphere",), abstract={"parse_material": "pure"}, domain={"spec": {"radius": ["$num", 0], "material": "$opq"}})
def sphere(spec, component_map):
    return Sphere(radius=spec["radius"], material=parse_material(spec["material"], component_map))


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_mesh", props="P31", opaque=("Mesh",), abstract={"parse_material": "pure"}, domain={"spec": {"file": ["a.stl", "/b/c.stl"], "material": "$opq"}})
def mesh(spec, component_map, working_directory):
    name = spec["file"] if os.path.isabs(spec["file"]) else os.path.join(working_directory, spec["file"])
    return Mesh(trimesh=trimesh.exchange.load.load(name), material=parse_material(spec["material"], component_map))


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_position_mask", props="P31", opaque=("RectangularMask", "CubeMask", "CircularMask"), domain={"spec": [{"rect": "$pair"}, {"cube": "$vec"}, {"circle": [0, "$num"]}, {"other": "$num"}]})
def position_mask(spec):
    if "rect" in spec:
        return RectangularMask(spec["rect"][0], spec["rect"][1])
    if "cube" in spec:
        return CubeMask(spec["cube"][0], spec["cube"][1], spec["cube"][2])
    if "circle" in spec:
        return CircularMask(spec["circle"])
    raise ValueError


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_direction_mask", "pvtrace/cli/parse.py:parse_v_1_0.parse_phase_function", props="P31", opaque=("Cone", "HenyeyGreenstein", "isotropic", "lambertian"), domain={"spec": [{"isotropic": [None]}, {"lambertian": [None]}, {"cone": {"half-angle": [0, "$num"]}}, {"henyey-greenstein": {"g": [0, "$num"]}}, {"other": "$num"}]})
def direction_mask(spec):
    if "isotropic" in spec:
        return isotropic
    if "lambertian" in spec:
        return lambertian
    if "cone" in spec:
        return Cone(np.radians(float(spec["cone"]["half-angle"])))
    if "henyey-greenstein" in spec:
        return HenyeyGreenstein(float(spec["henyey-greenstein"]["g"]))
    raise ValueError


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_wavelength_mask", props="P31", opaque=("ConstantWavelengthMask", "SpectrumWavelengthMask", "Distribution"), abstract={"parse_spectrum": "pure"}, domain={"spec": [{"nanometers": ["$num", 0]}, {"spectrum": "$opq"}, {"other": "$num"}], "pcall:parse_spectrum": ("tuple", ("tuple", "$pos", "$pos"), ("tuple", "$pos", "$pos"))})
def wavelength_mask(spec):
    if "nanometers" in spec:
        return ConstantWavelengthMask(float(spec["nanometers"]))
    if "spectrum" in spec:
        x = parse_spectrum(spec["spectrum"], "absorption")
        return SpectrumWavelengthMask(Distribution(x[:, 0], x[:, 1]))
    raise ValueError


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_light", props="P31", opaque=("Light", "ConstantWavelengthMask"), abstract={"parse_wavelength_mask": "pure", "parse_position_mask": "pure", "parse_direction_mask": "pure"}, domain={"spec": {"wavelength?": "$pos", "mask?": {"wavelength?": {"k": "$num"}, "position?": {"k": "$num"}, "direction?": {"k": "$num"}}}})
def light(spec, name):
    wavelength = ConstantWavelengthMask(spec["wavelength"]) if "wavelength" in spec else None
    position = None
    direction = None
    if "mask" in spec:
        if "wavelength" in spec["mask"]:
            wavelength = parse_wavelength_mask(spec["mask"]["wavelength"])
        if "position" in spec["mask"]:
            position = parse_position_mask(spec["mask"]["position"])
        if "direction" in spec["mask"]:
            direction = parse_direction_mask(spec["mask"]["direction"])
    return Light(position=position, direction=direction, wavelength=wavelength, name=name)


@spec("pvtrace/cli/parse.py:parse_v_1_0.load_spectrum", props="P31", domain={"filename": ["a.csv", "/b/c.csv"]})
def load_spectrum(filename, working_directory):
    path = filename if os.path.isabs(filename) else os.path.abspath(os.path.join(working_directory, filename))
    return pandas.read_csv(path, usecols=[0, 1, 2], index_col=0).iloc[:, 0:2].values.astype(float)


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_scatterer", props="P31", opaque=("Scatterer",), abstract={"parse_spectrum": "pure", "parse_phase_function": "pure"}, domain={"spec": {"coefficient?": [0, "$num"], "hist?": "$bool", "spectrum?": "$opq", "quantum-yield?": [0, 1, "$unit"], "phase-function?": "$opq"}, "pcall:parse_spectrum": ("tuple", ("tuple", "$pos", "$pos"), ("tuple", "$pos", "$pos"))})
def scatterer(spec, name):
    if "spectrum" in spec:
        x = parse_spectrum(spec["spectrum"], named_type="absorption")
        if "coefficient" in spec:
            x[:, 1] = x[:, 1] / np.max(x[:, 1]) * spec["coefficient"]
    elif "coefficient" in spec:
        x = spec["coefficient"]
    else:
        raise ValueError
    return Scatterer(x, quantum_yield=spec.get("quantum-yield", 1.0), phase_function=parse_phase_function(spec["phase-function"]) if "phase-function" in spec else None, name=name, hist=spec.get("hist", False))


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_luminophore", props="P31", opaque=("Luminophore", "isotropic"), abstract={"parse_spectrum": "pure", "parse_phase_function": "pure"}, trials=200, domain={"spec": {"absorption": {"coefficient?": [0, "$num"], "spectrum?": "$opq"}, "hist?": "$bool", "emission": {"spectrum": "$opq", "quantum-yield?": [0, 1, "$unit"], "phase-function?": "$opq"}}, "pcall:parse_spectrum": [None, ("tuple", ("tuple", "$pos", "$pos"), ("tuple", "$pos", "$pos")), ("tuple", ("tuple", "$pos", "$pos"), ("tuple", "$pos", "$pos")), ("tuple", ("tuple", "$pos", "$pos"), ("tuple", "$pos", "$pos"))]})
def luminophore(spec, name):
    absorption = spec["absorption"]
    emission = parse_spectrum(spec["emission"]["spectrum"], named_type="emission")
    x = parse_spectrum(absorption["spectrum"], named_type="absorption") if "spectrum" in absorption else None
    if emission is None:
        raise ValueError
    if x is not None:
        if "coefficient" in absorption:
            x[:, 1] = x[:, 1] / np.max(x[:, 1]) * absorption["coefficient"]
    elif "coefficient" in absorption:
        x = absorption["coefficient"]
    else:
        raise ValueError
    return Luminophore(x, emission=emission, quantum_yield=spec["emission"].get("quantum-yield", 1.0), phase_function=parse_phase_function(spec["emission"]["phase-function"]) if "phase-function" in spec["emission"] else isotropic, name=name, hist=spec.get("hist", False))


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_component", props="P30 P31", abstract={"parse_absorber": "pure", "parse_scatterer": "pure", "parse_luminophore": "pure"}, domain={"spec": [{"absorber": "$opq"}, {"scatterer": "$opq"}, {"luminophore": "$opq"}, {"builtin": "$opq"}]})
def component(spec, name):
    if "absorber" in spec:
        return parse_absorber(spec["absorber"], name)
    if "scatterer" in spec:
        return parse_scatterer(spec["scatterer"], name)
    if "luminophore" in spec:
        return parse_luminophore(spec["luminophore"], name)
    raise ValueError


@spec("pvtrace/cli/parse.py:parse_v_1_0.parse_node", props="P30 P31", opaque=("Node",), abstract={"parse_box": "pure", "parse_cylinder": "pure", "parse_sphere": "pure", "parse_mesh": "pure", "parse_light": "pure"}, domain={"spec": [{"box": "$opq"}, {"cylinder": "$opq"}, {"sphere": "$opq"}, {"mesh": "$opq"}, {"light": "$opq"}, {"other": "$opq"}]})
def node(spec, name, component_map=None):
    if "box" in spec:
        return Node(geometry=parse_box(spec["box"], component_map), name=name)
    if "cylinder" in spec:
        return Node(geometry=parse_cylinder(spec["cylinder"], component_map), name=name)
    if "sphere" in spec:
        return Node(geometry=parse_sphere(spec["sphere"], component_map), name=name)
    if "mesh" in spec:
        return Node(geometry=parse_mesh(spec["mesh"], component_map), name=name)
    if "light" in spec:
        return Node(light=parse_light(spec["light"], name), name=name)
    raise ValueError


@spec("pvtrace/cli/parse.py:parse_v_1_0.load_named_spectrum", props="P31", domain={"spec": {"name": ["lumogen-f-red-305", "fluro-red"], "range": {"min": [300, 301.5], "max": [320, 319.0], "spacing": [10, 10.5]}}, "mcall:absorption": "$like", "mcall:emission": "$like", "pcall:absorption": "$like", "pcall:emission": "$like", "named_type": ["absorption", "emission", "other", None]})
def named_spectrum(spec, named_type):
    x = np.arange(spec["range"]["min"], spec["range"]["max"] + spec["range"]["spacing"], spec["range"]["spacing"])
    module = SPECTRUM_MODULES[spec["name"]]
    if named_type == "absorption":
        return np.column_stack((x, module.absorption(x)))
    if named_type == "emission":
        return np.column_stack((x, module.emission(x)))
    raise ValueError


@spec("pvtrace/cli/parse.py:load_spec", props="P30")
def load_spec(filename):
    with open(filename, "r") as file:
        return yaml.safe_load(file)


@spec("pvtrace/cli/parse.py:load_schema", props="P30")
def load_schema():
    with open(SCHEMA, "r") as file:
        schema = json.load(file)
        jsonschema.Draft7Validator.check_schema(schema)
        return schema


@spec("pvtrace/cli/parse.py:parse", props="P30", abstract={"load_schema": "effect", "load_spec": "effect", "parse_v_1_0": "effect"}, domain={"eff:load_spec": {"version": ["1.0", "1.1", "2.0", 1.0]}})
def parse(filename):
    schema = load_schema()
    spec = load_spec(filename)
    jsonschema.validate(spec, schema=schema)
    if spec["version"] == "1.0":
        return parse_v_1_0(spec, os.path.dirname(filename))
    raise ValueError


@spec("pvtrace/cli/parse.py:parse_v_1_0", props="P30 P31", opaque=("Scene",), abstract={"parse_component": "pure", "parse_node": "pure", "parse_recorders": "call", "auto_recorders": "pure", "look_at": "call"}, trials=200, domain={
    "spec": {"components?": ("map", ["a", "b"], "$obj"), "nodes": {"world": {"location?": "$vec", "record?": "$bool"},
             "N1 x": {"parent?": [None, "world", "n2"], "location?": ["$vec"], "direction?": "$vec", "record?": "$bool"},
             "n2?": {"parent?": [None, "world", "zz"], "location?": "$vec", "direction?": "$vec", "record?": "$bool"}},
             "recorders?": [None, {"r1?": "$obj", "r2?": "$obj", "q1?": "$obj"}]},
    "pcall:auto_recorders": {"r1?": "$obj", "q1?": "$obj"}})
def parse_v_1_0(spec, working_directory):
    component_map = {}
    if "components" in spec:
        for k, v in spec["components"].items():
            component_map[k] = parse_component(v, k)
    nodes = {}
    for k, v in spec["nodes"].items():
        nodes[k] = parse_node(v, k, component_map=component_map)
    for k, v in spec["nodes"].items():
        node = nodes[k]
        if node.name == "world":
            node.parent = None
        elif v.get("parent") is None:
            node.parent = nodes["world"]
        elif v["parent"] not in nodes:
            raise AnyError
        else:
            node.parent = nodes[v["parent"]]
        if v.get("location"):
            node.location = v["location"]
        if v.get("direction"):
            node.look_at(v["direction"])
    recorders = dict(spec.get("recorders") or {})
    for k, v in spec["nodes"].items():
        if v.get("record"):
            for name, recorder in auto_recorders(k, v).items():
                if name not in recorders:
                    recorders[name] = recorder
    parse_recorders(recorders, nodes)
    return Scene(nodes["world"])


@spec("pvtrace/cli/parse.py:auto_recorders", props="P31", domain={"node_name": ["a", "b", "My LSC", "B"], "node_spec": [{"box": {"size": ("tuple", ["$pos", 2, 0.3, 20], ["$pos", 1, 0.1, 30], ["$pos", 3, 50])}, "record": "$bool"}, {"sphere": "$opq"}, {"cylinder": "$opq"}]})
def auto_recorders(node_name, node_spec):
    out = {node_name + "-lost": {"node": node_name, "event": "lost", "histograms": {"wavelength": [300.0, 1000.0, 100]}}}
    if "box" not in node_spec:
        out[node_name + "-escaping"] = {"node": node_name, "event": "escaping", "histograms": {"wavelength": [300.0, 1000.0, 100], "angle": [0.0, 1.5708, 18]}}
        return out
    x = float(node_spec["box"]["size"][0])
    y = float(node_spec["box"]["size"][1])
    z = float(node_spec["box"]["size"][2])
    nx = max(10, min(60, int(x * 10)))
    ny = max(10, min(60, int(y * 10)))
    nz = max(10, min(60, int(z * 10)))
    xy = ["x", "y", [-x / 2.0, x / 2.0, nx], [-y / 2.0, y / 2.0, ny]]
    yz = ["y", "z", [-y / 2.0, y / 2.0, ny], [-z / 2.0, z / 2.0, nz]]
    xz = ["x", "z", [-x / 2.0, x / 2.0, nx], [-z / 2.0, z / 2.0, nz]]
    for label, facet, position in (("top", [0, 0, 1], xy), ("bottom", [0, 0, -1], xy), ("east", [1, 0, 0], yz), ("west", [-1, 0, 0], yz),
                                   ("north", [0, 1, 0], xz), ("south", [0, -1, 0], xz)):
        out[node_name + "-" + label] = {"node": node_name, "event": "escaping", "facet": facet,
                                        "histograms": {"wavelength": [300.0, 1000.0, 100], "angle": [0.0, 1.5708, 18], "position": position}}
    return out


@spec("pvtrace/cli/parse.py:parse_recorders", props="P30 P31", trials=200, opaque=("Recorder", "Histogram", "Heatmap"), domain={
    "recorders_spec": ("map", ["r1", "r2", "r3"], {"node": ["a", "b", "b", "zz"], "event": ["escaping", "lost"], "facet?": "$axis", "atol?": [0, "$pos"], "histograms?": [None, {
        "wavelength?": ("tuple", "$num", "$num", "$int"), "angle?": ("tuple", "$num", "$num", "$int"), "position?": ("tuple", ["x"], ["y", "z"], "$pair", "$pair")}]}),
    "nodes": {"a": "$obj", "b": "$obj"}})
def parse_recorders(recorders_spec, nodes):
    for name, spec in recorders_spec.items():
        if spec["node"] not in nodes:
            raise ValueError
        histograms = []
        if spec.get("histograms"):
            for prop, v in spec["histograms"].items():
                if prop == "position":
                    histograms.append(Heatmap(v[0], v[1], v[2], v[3]))
                else:
                    histograms.append(Histogram(prop, v[0], v[1], v[2]))
        nodes[spec["node"]].recorders.append(Recorder(name, event=spec["event"], facet=spec.get("facet"), atol=spec["atol"] if "atol" in spec else 1e-6, histograms=histograms))
