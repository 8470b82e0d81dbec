"""Coordinate systems, the scene graph and running simulations."""
import os
import uuid
import multiprocessing
import numpy as np
from anytree import Walker, LevelOrderIter
from pvtrace.common.errors import AppError
from pvtrace.geometry.intersection import Intersection
from pvtrace.geometry.transformations import rotation_matrix
from pvtrace.light.event import Event
from pvtrace.light.light import Light
from pvtrace.algorithm import photon_tracer
from pvtrace.scene.scene import do_simulation, do_simulation_add_to_queue, is_end_ray

EPS_ZERO = 2.0 ** -52 * 1000
POSE = {"attr:_pose": "$mat4", "attr:_location": "$vec", "attr:pose": "$mat4"}


# ------------------------------------------------------------- Transformable

@spec("pvtrace/geometry/transformable.py:Transformable.__init__", props="P22", domain={"sym:location": [None, "$vec", "$vec"]})
def init(self, location=None):
    if location is None:
        x, y, z = 0.0, 0.0, 0.0
    else:
        x, y, z = location[0], location[1], location[2]
    self._location = np.array([x, y, z])
    self._pose = np.array([[1.0, 0.0, 0.0, x], [0.0, 1.0, 0.0, y], [0.0, 0.0, 1.0, z], [0.0, 0.0, 0.0, 1.0]])


@spec("pvtrace/geometry/transformable.py:Transformable.pose", props="P22", domain={"attr:_pose": "$mat4", "attr:_location": "$vec"})
def get_pose(self):
    return self._pose


@spec("pvtrace/geometry/transformable.py:Transformable.location", props="P22", domain={"attr:_pose": "$mat4", "attr:_location": "$vec"})
def get_location(self):
    return self._location


@spec("pvtrace/geometry/transformable.py:Transformable.pose.setter", props="P22", ignore=("ret",), domain={"attr:_pose": "$mat4", "attr:_location": "$vec", "sym:new_value": "$mat4"})
def set_pose(self, new_value):
    self._pose = new_value
    self._location = np.array([new_value[0][3], new_value[1][3], new_value[2][3]])


@spec("pvtrace/geometry/transformable.py:Transformable.location.setter", props="P22", ignore=("ret",), domain={"attr:_pose": "$mat4", "attr:_location": "$vec", "sym:new_value": "$vec"})
def set_location(self, new_value):
    p = self._pose
    self._location = np.array([new_value[0], new_value[1], new_value[2]])
    self._pose = np.array([[p[0][0], p[0][1], p[0][2], new_value[0]],
                           [p[1][0], p[1][1], p[1][2], new_value[1]],
                           [p[2][0], p[2][1], p[2][2], new_value[2]], [p[3][0], p[3][1], p[3][2], p[3][3]]])


AFFINE = "an affine pose whose last column is the location"


@spec("pvtrace/geometry/transformable.py:Transformable.translate", props="P22", ignore=("ret",), domain={"attr:_pose": "$affine", "attr:_location": "$vec", "sym:vector": "$vec"})
def translate(self, vector):
    p = self._pose
    self._location = self._location + np.array(vector)
    self._pose = np.array([[p[0][0], p[0][1], p[0][2], p[0][3] + vector[0]],
                           [p[1][0], p[1][1], p[1][2], p[1][3] + vector[1]],
                           [p[2][0], p[2][1], p[2][2], p[2][3] + vector[2]], [0.0, 0.0, 0.0, 1.0]])


def about(angle, axis, point):
    """Rotation by angle about the axis through point (Rodrigues)."""
    n = np.sqrt(axis[0] ** 2 + axis[1] ** 2 + axis[2] ** 2)
    x, y, z = axis[0] / n, axis[1] / n, axis[2] / n
    c, s = np.cos(angle), np.sin(angle)
    d = 1 - c
    a = [[c + x * x * d, x * y * d - z * s, x * z * d + y * s],
         [x * y * d + z * s, c + y * y * d, y * z * d - x * s],
         [x * z * d - y * s, y * z * d + x * s, c + z * z * d]]
    p, q, r = point[0], point[1], point[2]
    rows = []
    for i in range(3):
        rows.append([a[i][0], a[i][1], a[i][2], point[i] - (a[i][0] * p + a[i][1] * q + a[i][2] * r)])
    rows.append([0.0, 0.0, 0.0, 1.0])
    return rows


@spec("pvtrace/geometry/transformable.py:Transformable.rotate", props="P22", ignore=("ret",), domain={"attr:_pose": "$mat4", "attr:_location": "$vec", "sym:axis": "$vec", "sym:angle": "$num"})
def rotate(self, angle, axis):
    self._pose = np.dot(np.array(about(angle, axis, self._location)), self._pose)


@spec("pvtrace/scene/node.py:Node.look_at", props="P22", ignore=("ret",), abstract={"rotation_from_matrix": "fn:rotfrommat"},
      domain={"attr:_pose": "$mat4", "attr:_location": "$vec", "sym:vector": [("range3", -1.0, 1.0), "$axis", "$vec"]}, trials=100)
def look_at(self, vector):
    n = np.sqrt(vector[0] ** 2 + vector[1] ** 2 + vector[2] ** 2)
    x, y, z = vector[0] / n, vector[1] / n, vector[2] / n
    p = self._location
    if np.isclose(z, -1.0):
        self._pose = np.dot(np.array(about(np.pi, [0.0, 1.0, 0.0], p)), self._pose)
        return
    # the smallest rotation that takes +z to the vector
    k = 1 / (1 + z)
    a = [[1 - x * x * k, -x * y * k, x], [-x * y * k, 1 - y * y * k, y], [-x, -y, z]]
    rows = []
    for i in range(3):
        rows.append([a[i][0], a[i][1], a[i][2], p[i] - (a[i][0] * p[0] + a[i][1] * p[1] + a[i][2] * p[2])])
    rows.append([0.0, 0.0, 0.0, 1.0])
    self._pose = np.dot(np.array(rows), self._pose)


@spec("pvtrace/scene/node.py:Node.look_at", props="P22", ignore=("ret",),
      domain={"attr:_pose": "$mat4", "attr:_location": "$vec", "sym:vector": [("range3", -1.0, 1.0), ("tuple", "$num", "$num", [0.0]), ("tuple", "$num", [0.0], "$num"), ("tuple", [0.0], "$num", "$num"), "$vec"]}, trials=100)
def look_at_whole(self, vector):
    n = np.sqrt(vector[0] ** 2 + vector[1] ** 2 + vector[2] ** 2)
    if n < 0:
        raise ValueError("not a rotation")
    x, y, z = vector[0] / n, vector[1] / n, vector[2] / n
    p = self._location
    if np.isclose(z, -1.0):
        self._pose = np.dot(np.array(about(np.pi, [0.0, 1.0, 0.0], p)), self._pose)
        return
    k = 1 / (1 + z)
    a = [[1 - x * x * k, -x * y * k, x], [-x * y * k, 1 - y * y * k, y], [-x, -y, z]]
    rows = []
    for i in range(3):
        rows.append([a[i][0], a[i][1], a[i][2], p[i] - (a[i][0] * p[0] + a[i][1] * p[1] + a[i][2] * p[2])])
    rows.append([0.0, 0.0, 0.0, 1.0])
    self._pose = np.dot(np.array(rows), self._pose)


@spec("pvtrace/scene/node.py:Node.__init__", props="P22 P31", ignore=("attr:_pose",), domain={"sym:location": [None, "$vec"]})
def node_init(self, name=None, parent=None, location=None, geometry=None, light=None, recorders=None):
    self._location = np.zeros(3) if location is None else np.array(location)
    self.name = name
    self.parent = parent
    self.geometry = geometry
    self.light = light
    if recorders is None:
        self.recorders = []
    else:
        self.recorders = list(recorders)


@spec("pvtrace/scene/node.py:Node.transformation_to", props="P07 P22 P12", domain={"attr:pose": "$mat4", "attr:_pose": "$mat4", "mcall:walk": ("tuple", ("seq", "$any"), "$any", ("seq", "$any"))})
def transformation_to(self, node):
    if self == node:
        return np.identity(4)
    up, _, down = Walker().walk(self, node)
    m = np.identity(4)
    for n in up:
        m = np.dot(n.pose, m)
    for n in down:
        m = np.dot(np.linalg.inv(n.pose), m)
    return m


@spec("pvtrace/scene/node.py:Node.point_to_node", props="P07 P22", opaque=("transformation_to",), domain={"transformation_to": "$mat4", "sym:point": "$vec"})
def point_to_node(self, point, node):
    m = self.transformation_to(node)
    return tuple([m[i][0] * point[0] + m[i][1] * point[1] + m[i][2] * point[2] + m[i][3] for i in range(3)])


@spec("pvtrace/scene/node.py:Node.vector_to_node", props="P07 P22", opaque=("transformation_to",), domain={"transformation_to": "$mat4", "sym:vector": "$vec"})
def vector_to_node(self, vector, node):
    m = self.transformation_to(node)
    return tuple([m[i][0] * vector[0] + m[i][1] * vector[1] + m[i][2] * vector[2] for i in range(3)])


@spec("pvtrace/geometry/intersection.py:Intersection.to", props="P07 P23", opaque=("point_to_node",), domain={"attr:point": "$vec"})
def intersection_to(self, other_node):
    return Intersection(
        coordsys=other_node,
        point=self.coordsys.point_to_node(self.point, other_node),
        hit=self.hit,
        distance=self.distance,
    )


@spec("pvtrace/scene/node.py:Node.intersections", props="P23 P07", opaque=("intersections", "point_to_node", "vector_to_node"),
      domain={"sym:ray_origin": "$vec", "sym:ray_direction": "$vec", "mcall:intersections": ("seq", "$vec"), "attr:children": ("seq", "$any"), "attr:geometry": [None, "$any", "$any"]})
def node_intersections(self, ray_origin, ray_direction):
    found = []
    if self.geometry is not None:
        for p in self.geometry.intersections(ray_origin, ray_direction):
            d = np.sqrt((p[0] - ray_origin[0]) ** 2 + (p[1] - ray_origin[1]) ** 2 + (p[2] - ray_origin[2]) ** 2)
            found.append(Intersection(coordsys=self, point=p, hit=self, distance=d))
    for child in self.children:
        origin = self.point_to_node(ray_origin, child)
        direction = self.vector_to_node(ray_direction, child)
        for x in child.intersections(origin, direction):
            found.append(x)
    return tuple(found)


def ahead(origin, direction, point):
    a = direction[0] * point[0] + direction[1] * point[1] + direction[2] * point[2]
    b = direction[0] * origin[0] + direction[1] * origin[1] + direction[2] * origin[2]
    return a - b > EPS_ZERO


@spec("pvtrace/scene/scene.py:Scene.intersections", props="P23 P08", opaque=("intersections", "to"),
      domain={"sym:ray_origin": "$vec", "sym:ray_direction": "$vec", "attr:point": "$vec", "mcall:intersections": ("seq", "$any"), "attr:root": [None, "$any", "$any", "$any"]}, maxlen=4, trials=150, rounds=6)
def scene_intersections(self, ray_origin, ray_direction):
    if self.root is None:
        return ()
    found = []
    for x in self.root.intersections(ray_origin, ray_direction):
        y = x.to(self.root)
        if ahead(ray_origin, ray_direction, y.point):
            found.append(y)
    return tuple(sorted(found, key=lambda i: np.linalg.norm(np.array(i.point) - np.array(ray_origin))))


@spec("pvtrace/scene/scene.py:Scene.intersections", props="P23 P08", opaque=("intersections", "to"),
      domain={"sym:ray_origin": "$vec", "sym:ray_direction": "$vec", "attr:point": [("tuple", [1.0], [0.0], [2.0]), ("tuple", [0.0], [1.0], [2.0]), "$vec"], "attr:distance": [1.0, 2.0, "$pos"], "mcall:intersections": ("seq", "$any")}, maxlen=4, trials=100, rounds=6)
def touching_surfaces(self, ray_origin, ray_direction):
    if self.root is None:
        return ()
    found = []
    for x in self.root.intersections(ray_origin, ray_direction):
        y = x.to(self.root)
        if ahead(ray_origin, ray_direction, y.point):
            found.append(y)
    return tuple(sorted(found, key=lambda i: np.linalg.norm(np.array(i.point) - np.array(ray_origin))))


@spec("pvtrace/scene/scene.py:Scene.light_nodes", props="P21 P23", domain={"call:anytree.LevelOrderIter": ("seq", "$any")})
def light_nodes(self):
    return [n for n in LevelOrderIter(self.root) if isinstance(n.light, Light)]


@spec("pvtrace/scene/scene.py:Scene.component_nodes", props="P23 P31")
def component_nodes(self):
    out = []
    for n in LevelOrderIter(self.root):
        if n.geometry and n.geometry.material:
            for c in n.geometry.material.components:
                out.append(c)
    return out


# ------------------------------------------------------------- simulation

@spec("pvtrace/scene/scene.py:is_end_ray", props="P28", domain={"sym:event": ["$any"], "idx:metadata": "$any"}, trials=400)
def end_ray(event, metadata):
    if event == Event.GENERATE or event == Event.EXIT or event == Event.KILL:
        return True
    if event == Event.NONRADIATIVE or event == Event.REACT:
        return True
    if event == Event.REFLECT:
        return metadata["hit"] == metadata["adjacent"]
    if event == Event.TRANSMIT:
        return metadata["hit"] == metadata["adjacent"] or metadata["hit"] == metadata["container"]
    return False


@spec("pvtrace/scene/scene.py:do_simulation", props="P20 P28", opaque=("emit", "follow"), domain={"sym:seed": [None, 0, 1, 7], "mcall:emit": ("seq", "$any")}, draws="")
def simulation(scene, num_rays, seed):
    if seed is not None:
        np.random.seed(seed)
    out = []
    for ray in scene.emit(num_rays):
        out.append(photon_tracer.follow(scene, ray))
    return out


@spec("pvtrace/scene/scene.py:do_simulation_add_to_queue", props="P20 P28", opaque=("emit", "step_forward", "is_end_ray"),
      ignore=("ret", "uuid.uuid4", "os.getpid"), domain={"sym:seed": [None, 0, 1, 7], "mcall:emit": ("seq", "$any"), "sym:end_rays": "$bool", "pcall:step_forward": ("seq", ("tuple", "$any", "$any", "$any")), "pcall:is_end_ray": "$bool"})
def simulation_queue(scene, num_rays, seed, queue, end_rays):
    if seed is not None:
        np.random.seed(seed)
    pid = f"{os.getpid()}-{uuid.uuid4().hex}"
    idx = 0
    for ray in scene.emit(num_rays):
        for r, event, metadata in photon_tracer.step_forward(scene, ray):
            if not end_rays or is_end_ray(event, metadata):
                queue.put((pid, idx, r, event, metadata))
        idx = idx + 1


@spec("pvtrace/scene/scene.py:Scene.simulate", props="P20 P28", opaque=("do_simulation", "do_simulation_add_to_queue"),
      domain={"sym:num_rays": [0, 1, 2, 3, 5, 6, 7, 8, 9, 10], "sym:workers": [None, 1, 2, 3, 4], "sym:seed": [None, None, 0, 3], "sym:queue": [None, "$any"], "sym:end_rays": "$bool",
              "call:multiprocessing.cpu_count": [1, 2, 4, 7], "eff:.get": ("seq", "$any"), "draw:randint": ("tuple", "$any", "$any", "$any", "$any", "$any")}, trials=250, rounds=7, maxlen=3)
def simulate(self, num_rays, workers=None, seed=None, queue=None, end_rays=False):
    if workers is None:
        workers = max(1, multiprocessing.cpu_count() // 2)
    if workers == 1 or num_rays // workers == 0:
        if queue:
            return do_simulation_add_to_queue(self, num_rays, seed, queue, end_rays)
        return do_simulation(self, num_rays, seed)
    if seed is not None:
        raise ValueError("")
    share = num_rays // workers
    seeds = np.random.randint(0, 2 ** 31 - 1, workers)
    pool = multiprocessing.Pool(processes=workers)
    jobs = []
    for i in range(workers):
        n = share
        if i == 0:
            n = share + (num_rays - share * workers)
        if queue:
            jobs.append(pool.apply_async(do_simulation_add_to_queue, (self, n, seeds[i], queue, end_rays)))
        else:
            jobs.append(pool.apply_async(do_simulation, (self, n, seeds[i])))
    out = []
    for job in jobs:
        got = job.get()
        if not queue:
            for h in got:
                out.append(h)
    if queue:
        return None
    return out
