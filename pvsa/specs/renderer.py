"""Drawing scenes and ray histories."""
import io
import meshcat
import meshcat.geometry as g
import meshcat.transformations as tf
import numpy as np
import trimesh
from collections import deque
from anytree import LevelOrderIter
from pvtrace.common.errors import AppError
from pvtrace.geometry.cylinder import Cylinder
from pvtrace.geometry.mesh import Mesh
from pvtrace.geometry.sphere import Sphere
from pvtrace.light.event import Event
from pvtrace.light.utils import rgb_to_hex_int, wavelength_to_hex_int, wavelength_to_rgb


@spec("pvtrace/light/utils.py:wavelength_to_rgb", props="P42", trials=200,
      domain={"nanometers": [("range", 350.0, 800.0), ("range", 350.0, 800.0), 380, 440, 490, 510, 580, 645, 700, 780, 780.5, 420, 379.9]})
def rgb(nanometers):
    w = int(nanometers)
    if w < 380 or w > 780:
        return (0, 0, 0)
    r = 0.0
    gr = 0.0
    b = 0.0
    if w < 440:
        r = (440 - w) / 90
        b = 1.0
    elif w < 490:
        gr = (w - 440) / 50
        b = 1.0
    elif w < 510:
        gr = 1.0
        b = (510 - w) / 20
    elif w < 580:
        r = (w - 510) / 70
        gr = 1.0
    elif w < 645:
        r = 1.0
        gr = (645 - w) / 65
    else:
        r = 1.0
    s = 1.0
    if w < 420:
        s = 0.3 + 0.7 * (w - 350) / 70
    elif w > 700:
        s = 0.3 + 0.7 * (780 - w) / 80
    return (int(255 * s * r), int(255 * s * gr), int(255 * s * b))


@spec("pvtrace/light/utils.py:rgb_to_hex_int", props="P42", domain={"rgb": ("tuple", [0, 1, 15, 16, 128, 255, 256, 300, -1], [0, 1, 15, 16, 128, 255, 256, -4], [0, 1, 15, 16, 128, 255, 999, -1])})
def hex_int(rgb):
    out = 0
    for x in rgb:
        out = out * 256 + max(0, min(255, x))
    return out


@spec("pvtrace/light/utils.py:wavelength_to_hex_int", props="P42", trials=200, abstract={"wavelength_to_rgb": "pure", "rgb_to_hex_int": "pure"})
def wavelength_colour(nanometers):
    return rgb_to_hex_int(wavelength_to_rgb(nanometers))


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.__init__", props="P42")
def init(self, zmq_url=None, max_histories=10, open_browser=False, wireframe=False, transparency=True, opacity=0.5, reflectivity=1.0):
    self.vis = meshcat.Visualizer(zmq_url=zmq_url)
    if open_browser:
        self.vis.open()
    self.ray_histories = deque(maxlen=max_histories)
    self.max_histories = max_histories
    self.added_index = 0
    self.wireframe = wireframe
    self.transparency = transparency
    self.opacity = opacity
    self.reflectivity = reflectivity


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.add_node", props="P42", abstract={"add_geometry": "call", "transformation_to": "pure"}, trials=60)
def add_node(self, node):
    if node.geometry is not None:
        self.add_geometry(node.geometry, " | ".join([x.name for x in node.path]), node.transformation_to(node.root))


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.render", props="P42", abstract={"add_node": "call"})
def render(self, scene, show_root=False):
    for node in LevelOrderIter(scene.root):
        if not node == scene.root:
            self.add_node(node)


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.get_next_identifer", props="P42", domain={"attr:added_index": "$int"})
def next_identifier(self):
    self.added_index += 1
    return "rays/" + str(self.added_index)


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.add_ray", props="P42", abstract={"add_line_segment": "call", "wavelength_to_hex_int": "pure"}, domain={"attr:position": "$vec", "attr:direction": "$uvec"})
def add_ray(self, ray, length):
    return self.add_line_segment(ray.position, np.array(ray.position) + length * np.array(ray.direction), colour=wavelength_to_hex_int(ray.wavelength))


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.add_ray_path", props="P42", abstract={"add_line_segment": "call", "wavelength_to_hex_int": "pure"})
def add_ray_path(self, rays):
    if len(rays) < 2:
        raise AppError("two points")
    ids = []
    for i in range(len(rays) - 1):
        ids.append(self.add_line_segment(rays[i].position, rays[i + 1].position, colour=wavelength_to_hex_int(rays[i].wavelength)))
    return ids


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.add_line_segment", props="P42", abstract={"get_next_identifer": "call"}, domain={"start": "$vec", "end": "$vec"})
def add_line_segment(self, start, end, colour=0xFFFFFF):
    vis = self.vis
    name = self.get_next_identifer()
    vis[name].set_object(g.Line(g.PointsGeometry(np.column_stack((start, end))), g.MeshBasicMaterial(color=colour, transparency=False, opacity=1)))
    return name


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.add_path", props="P42", abstract={"get_next_identifer": "call"}, domain={"vertices": ("tuple", "$nums", "$nums", "$nums")})
def add_path(self, vertices, colour=0xFFFFFF):
    vis = self.vis
    points = np.array(vertices)
    assert points.shape[0] == 3
    name = self.get_next_identifer()
    vis[name].set_object(g.Line(g.PointsGeometry(points), g.MeshBasicMaterial(color=colour, transparency=False, opacity=1.0)))
    return name


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.add_geometry", props="P42", trials=200, domain={"geometry": [("is", "Sphere"), ("is", "Cylinder"), ("is", "Mesh"), ("is", "Geometry")], "transform": "$mat4"})
def add_geometry(self, geometry, pathname, transform):
    vis = self.vis
    look = g.MeshBasicMaterial(reflectivity=self.reflectivity, sides=0, wireframe=self.wireframe)
    look.transparency = self.transparency
    look.opacity = self.opacity
    if isinstance(geometry, Sphere):
        vis[pathname].set_object(g.Sphere(geometry.radius), look)
        vis[pathname].set_transform(transform)
    elif isinstance(geometry, Cylinder):
        vis[pathname].set_object(g.Cylinder(geometry.length, geometry.radius), look)
        pose = np.copy(transform)
        pose[:, [1, 2]] = pose[:, [2, 1]]
        vis[pathname].set_transform(pose)
    elif isinstance(geometry, Mesh):
        vis[pathname].set_object(meshcat.geometry.StlMeshGeometry.from_stream(io.BytesIO(trimesh.exchange.stl.export_stl(geometry.trimesh))), look)
        vis[pathname].set_transform(transform)
    else:
        raise NotImplementedError("shape")


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.remove_object", props="P42")
def remove_object(self, identifier):
    vis = self.vis
    vis[identifier].delete()


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.remove", props="P42")
def remove(self, scene):
    vis = self.vis
    vis.delete()


@spec("pvtrace/scene/renderer.py:MeshcatRenderer.add_history", props="P42", trials=1200,
      abstract={"add_line_segment": "call", "get_next_identifer": "call", "remove_object": "call", "wavelength_to_hex_int": "pure"},
      domain={"history": ("seq", ("tuple", {"position": "$vec", "direction": "$uvec", "wavelength": "$pos"}, "$event")), "world_segment": ["exclude", "short", "short", "long"], "baubles": "$bool",
              "short_length": "$pos", "call:get_next_identifer": ["rays/1", "rays/2", "rays/33"], "attr:ray_histories": ("seq", ("seq", "$opq")), "attr:max_histories": [0, 1, 2, 3, 5]})
def add_history(self, history, baubles=True, world_segment="short", short_length=1.0, bauble_radius=0.01):
    vis = self.vis
    if world_segment != "exclude" and world_segment != "short":
        raise ValueError("world_segment")
    n = len(history)
    if n == 0:
        raise AnyError
    if world_segment == "exclude":
        for i in range(n):
            if history[i][1] == Event.EXIT:
                n = i
                break
        if n < len(history) and n < 2:
            return
    if n < 2:
        raise AppError("two points")
    ids = []
    for i in range(n - 1):
        ray = history[i][0]
        end = history[i + 1][0].position
        if world_segment == "short" and history[i + 1][1] == Event.EXIT:
            end = np.array(ray.position) + short_length * np.array(ray.direction)
        colour = wavelength_to_hex_int(ray.wavelength)
        ids.append(self.add_line_segment(ray.position, end, colour=colour))
        if baubles and history[i][1] == Event.TRANSMIT:
            name = f"exit/{self.get_next_identifer()}"
            vis[name].set_object(g.Sphere(bauble_radius), g.MeshBasicMaterial(color=colour, transparency=False, opacity=1))
            vis[name].set_transform(tf.translation_matrix(ray.position))
            ids.append(name)
    if len(self.ray_histories) == self.max_histories:
        for x in self.ray_histories.popleft():
            self.remove_object(x)
    self.ray_histories.append(ids)
    return ids
