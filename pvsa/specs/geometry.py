"""Primitive shapes."""
import numpy as np
from pvtrace.common.errors import GeometryError

EPS_ZERO = 2.0 ** -52 * 1000
NORMALS = ((-1, 0, 0), (1, 0, 0), (0, -1, 0), (0, 1, 0), (0, 0, -1), (0, 0, 1))


def length3(p):
    return np.sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2])


@spec("pvtrace/geometry/sphere.py:Sphere.__init__", props="P38 P31")
def sphere_init(self, radius, material=None):
    self.radius = radius
    self._material = material


@spec("pvtrace/geometry/sphere.py:Sphere.material", props="P38 P31")
@spec("pvtrace/geometry/cylinder.py:Cylinder.material", props="P38 P31")
@spec("pvtrace/geometry/mesh.py:Mesh.material", props="P38 P31")
def material(self):
    return self._material


@spec("pvtrace/geometry/sphere.py:Sphere.material.setter", props="P38 P31")
@spec("pvtrace/geometry/cylinder.py:Cylinder.material.setter", props="P38 P31")
@spec("pvtrace/geometry/mesh.py:Mesh.material.setter", props="P38 P31")
def set_material(self, new_value):
    self._material = new_value


SURF = "points near the surface as often as away from it"


@spec("pvtrace/geometry/sphere.py:Sphere.is_on_surface", props="P38", domain={"sym:point": [("range3", -1.0, 1.0), ("tuple", [0.0], [0.0], [1.0, 2.0, 0.5, 1.0000000000001, 1.0000000000003])], "attr:radius": [1.0, 2.0, 0.5]}, trials=120)
def sphere_on(self, point):
    return abs(length3(point) - self.radius) < EPS_ZERO


@spec("pvtrace/geometry/sphere.py:Sphere.contains", props="P38", domain={"sym:point": ["$vec", ("tuple", [0.0], [0.0], [1.0, 2.0, 0.5])], "attr:radius": ["$pos", 1.0, 2.0, 0.5]}, trials=120)
def sphere_contains(self, point):
    return self.radius - length3(point) > EPS_ZERO


@spec("pvtrace/geometry/sphere.py:Sphere.intersections", props="P38 P10", domain={"sym:origin": ["$vec", ("range3", -1.0, 1.0), ("tuple", [0.0], [0.0, 1.0], [1.0, 2.0, 0.5])], "sym:direction": ["$uvec", "$axis", "$vec"], "attr:radius": ["$pos", 1.0, 2.0, 0.5]}, trials=200)
def sphere_hits(self, origin, direction):
    a = np.dot(direction, direction)
    b = np.dot(direction, origin)
    c = np.dot(origin, origin) - self.radius * self.radius
    d = b * b - a * c
    if d < 0:
        return ()
    if np.isclose(4 * d, 0.0):
        ts = [-b / a]
    else:
        ts = [(-b - np.sqrt(d)) / a, (-b + np.sqrt(d)) / a]
    out = []
    for t in ts:
        if t >= 0.0:
            out.append((origin[0] + t * direction[0], origin[1] + t * direction[1], origin[2] + t * direction[2]))
    return tuple(out)


@spec("pvtrace/geometry/sphere.py:Sphere.normal", props="P38 P05", domain={"sym:surface_point": "$vec"})
def sphere_normal(self, surface_point):
    n = length3(surface_point)
    return (surface_point[0] / n, surface_point[1] / n, surface_point[2] / n)


@spec("pvtrace/geometry/sphere.py:Sphere.is_entering", props="P38", opaque=("is_on_surface", "normal"), domain={"sym:surface_point": "$vec", "sym:direction": "$vec", "normal": "$vec", "is_on_surface": "$bool"})
def sphere_entering(self, surface_point, direction):
    if not self.is_on_surface(surface_point):
        raise ValueError("")
    return np.dot(self.normal(surface_point), direction) < 0.0


@spec("pvtrace/geometry/cylinder.py:Cylinder.__init__", props="P38 P31")
def cylinder_init(self, length, radius, material=None):
    self.length = length
    self.radius = radius
    self._material = material


@spec("pvtrace/geometry/cylinder.py:Cylinder.contains", props="P38", domain={"sym:point": ["$vec", ("tuple", [0.0, 1.0], [0.0, 1.0], [0.5, -0.5, 0.0, 0.7])], "attr:length": ["$pos", 1.0], "attr:radius": ["$pos", 1.0]}, trials=120)
def cylinder_contains(self, point):
    return -0.5 * self.length < point[2] and point[2] < 0.5 * self.length and \
        np.sqrt(point[0] * point[0] + point[1] * point[1]) < self.radius


@spec("pvtrace/geometry/cylinder.py:Cylinder.normal", props="P38 P05", domain={"sym:surface_point": ["$vec", ("tuple", [0.0, 1.0, 0.3], [0.0, 1.0], [0.5, -0.5, 0.0, 0.3, 1.0, -1.0])], "attr:length": ["$pos", 1.0, 2.0], "attr:radius": ["$pos", 1.0, 1.0]}, trials=160)
def cylinder_normal(self, surface_point):
    x, y, z = surface_point[0], surface_point[1], surface_point[2]
    r = np.sqrt(x * x + y * y)
    if np.isclose(z, -0.5 * self.length):
        return (0.0, 0.0, -1.0)
    if np.isclose(z, 0.5 * self.length):
        return (0.0, 0.0, 1.0)
    if np.isclose(self.radius, r):
        return (x / r, y / r, 0.0)
    raise GeometryError("")


@spec("pvtrace/geometry/cylinder.py:Cylinder.intersections", props="P38", opaque=("ray_z_cylinder",), domain={"ray_z_cylinder": ("tuple", ("seq", "$vec"), ("seq", "$num"))})
def cylinder_hits(self, origin, direction):
    points, distances = ray_z_cylinder(self.length, self.radius, origin, direction)
    return points


from pvtrace.geometry.utils import ray_z_cylinder


@spec("pvtrace/geometry/cylinder.py:Cylinder.is_on_surface", props="P38", opaque=("ray_z_cylinder",), domain={"ray_z_cylinder": ("tuple", ("seq", "$vec"), ("seq", [0.0, 1e-14, 1e-13, 3e-13, 1e-3, "$pos"])), "sym:point": "$vec", "attr:length": "$pos", "attr:radius": "$pos"}, trials=120)
def cylinder_on(self, point):
    s = 1 / np.sqrt(3.0)
    points, distances = ray_z_cylinder(self.length, self.radius, point, (s, s, s))
    if len(distances) == 0:
        return False
    return abs(distances[0]) < EPS_ZERO


@spec("pvtrace/geometry/cylinder.py:Cylinder.is_entering", props="P38", opaque=("is_on_surface", "normal"), domain={"sym:surface_point": "$vec", "sym:direction": "$vec", "normal": "$vec", "is_on_surface": "$bool"})
def cylinder_entering(self, surface_point, direction):
    if not self.is_on_surface(surface_point):
        raise GeometryError("")
    return np.dot(self.normal(surface_point), direction) < 0.0


@spec("pvtrace/geometry/utils.py:ray_z_cylinder", props="P38 P10", domain={"sym:length": ["$pos", 1.0, 2.0], "sym:radius": ["$pos", 1.0, 2.0], "sym:ray_origin": ["$vec", ("range3", -1.0, 1.0), ("range3", -0.4, 0.4)], "sym:ray_direction": ["$uvec", "$axis"]}, trials=250)
def z_cylinder(length, radius, ray_origin, ray_direction):
    x, y, z = ray_origin[0], ray_origin[1], ray_origin[2]
    i, j, k = ray_direction[0], ray_direction[1], ray_direction[2]
    half = 0.5 * length
    found = []
    for t in np.roots([i * i + j * j, 2 * (x * i + y * j), x * x + y * y - radius * radius]):
        if np.isreal(t) and t >= 0 and -half < z + t * k < half:
            found.append((t, (x + t * i, y + t * j, z + t * k)))
    if k != 0.0:
        for t in ((-half - z) / k, (half - z) / k):
            if t >= 0 and np.sqrt((x + t * i) ** 2 + (y + t * j) ** 2) < radius:
                found.append((t, (x + t * i, y + t * j, z + t * k)))
    found = sorted(found, key=lambda f: f[0])
    return tuple([p for t, p in found]), tuple([t for t, p in found])


@spec("pvtrace/geometry/utils.py:on_aabb_surface", props="P38", domain={"sym:size": ("tuple", [1.0, 2.0], [1.0, 3.0], [1.0, 4.0]), "sym:point": ("tuple", [0.5, -0.5, 1.0, 0.1], [0.5, -0.5, 1.5, 0.2], [0.5, -0.5, -2.0, 0.3]), "sym:centre": [("tuple", [0.0], [0.0], [0.0]), ("tuple", [0.25, 0.5], [0.0, 1.0], [0.0, -0.5])], "sym:atol": [2.2e-13, 4.4e-13, 0.01, 0.3, 1.0]}, trials=200)
def aabb_surface(size, point, centre=(0.0, 0.0, 0.0), atol=EPS_ZERO):
    faces = []
    for axis in range(3):
        for sign in (-1, 1):
            d = point[axis] - (centre[axis] + sign * 0.5 * size[axis])
            faces.append(abs(d) < 0.5 * atol)
    found = [i for i in range(6) if faces[i]]
    return len(found) > 0, found


@spec("pvtrace/geometry/box.py:Box.is_on_surface", props="P38", opaque=("on_aabb_surface",), domain={"on_aabb_surface": ("tuple", "$bool", ("seq", [0, 1, 2, 3, 4, 5]))})
def box_on(self, point):
    on, faces = on_aabb_surface(self._size, point, atol=2 * EPS_ZERO)
    return on


from pvtrace.geometry.utils import on_aabb_surface


@spec("pvtrace/geometry/box.py:Box.normal", props="P38 P05", opaque=("on_aabb_surface",), domain={"on_aabb_surface": ("tuple", "$bool", ("seq", [0, 1, 2, 3, 4, 5]))}, trials=120)
def box_normal(self, surface_point):
    on, faces = on_aabb_surface(self._size, surface_point, atol=2 * EPS_ZERO)
    if not on or len(faces) != 1:
        raise GeometryError("")
    return NORMALS[faces[0]]


@spec("pvtrace/geometry/utils.py:distance_between", props="P23 P38", domain={"sym:point1": "$vec", "sym:point2": "$vec"})
def between(point1, point2):
    return length3((point1[0] - point2[0], point1[1] - point2[1], point1[2] - point2[2]))


@spec("pvtrace/geometry/utils.py:norm", props="P38 P05", domain={"sym:vector": "$vec"})
def norm_(vector):
    n = length3(vector)
    return np.array([vector[0] / n, vector[1] / n, vector[2] / n])


@spec("pvtrace/geometry/utils.py:magnitude", props="P38", domain={"sym:vector": "$vec"})
def magnitude(vector):
    return length3(vector)


@spec("pvtrace/geometry/utils.py:flip", props="P05", domain={"sym:vector": "$vec"})
def flip(vector):
    return np.array([-vector[0], -vector[1], -vector[2]])


@spec("pvtrace/geometry/utils.py:close_to_zero", props="P08 P38", domain={"sym:value": [0.0, 1e-14, 1e-13, 2e-13, 3e-13, 1e-3, "$num"]}, trials=120)
def close_to_zero(value):
    return abs(value) < EPS_ZERO


@spec("pvtrace/geometry/utils.py:points_equal", props="P08", domain={"sym:point1": ("tuple", [0.0, 1.0], [1e-14, 0.0], [0.0]), "sym:point2": ("tuple", [0.0, 1.0], [1e-14, 0.0], [0.0])}, trials=100)
def points_equal(point1, point2):
    return length3((point1[0] - point2[0], point1[1] - point2[1], point1[2] - point2[2])) < EPS_ZERO


@spec("pvtrace/geometry/utils.py:floats_close", props="P08", domain={"sym:a": [0.0, 1.0, 1e-13, 3e-13], "sym:b": [0.0, 1.0, 1e-14]}, trials=100)
def floats_close(a, b):
    return abs(a - b) < EPS_ZERO


@spec("pvtrace/geometry/utils.py:angle_between", props="P05", domain={"sym:normal": ["$axis", "$uvec"], "sym:vector": ["$axis", "$uvec"]}, trials=400)
def angle_between(normal, vector):
    if np.allclose(np.array(normal), np.array(vector)):
        return 0.0
    if np.allclose(-np.array(normal), np.array(vector)):
        return np.pi
    return np.arccos(normal[0] * vector[0] + normal[1] * vector[1] + normal[2] * vector[2])


@spec("pvtrace/geometry/utils.py:intersection_point_is_ahead", props="P23", domain={"sym:ray_position": "$vec", "sym:ray_direction": ["$vec", "$axis"], "sym:intersection_point": "$vec"}, trials=120)
def is_ahead(ray_position, ray_direction, intersection_point):
    s = 0.0
    for i in range(3):
        s = s + ray_direction[i] * (intersection_point[i] - ray_position[i])
    return s > EPS_ZERO


# ------------------------------------------------------------- meshes

@spec("pvtrace/geometry/mesh.py:Mesh.contains", props="P38")
def mesh_contains(self, point):
    return self.trimesh.contains(np.array([point]))[0]


@spec("pvtrace/geometry/mesh.py:Mesh.intersections", props="P38 P23", domain={"sym:position": "$vec", "sym:direction": "$vec", "mcall:intersects_location": ("tuple", ("seq", "$vec"), ("seq", "$int"), ("seq", "$int"))}, trials=100)
def mesh_hits(self, position, direction):
    points, rays, triangles = self.trimesh.ray.intersects_location(ray_origins=np.array([position]), ray_directions=np.array([direction]))
    return tuple(sorted(points, key=lambda p: length3((p[0] - position[0], p[1] - position[1], p[2] - position[2]))))


@spec("pvtrace/geometry/mesh.py:Mesh.normal", props="P38 P05", domain={"sym:surface_point": "$vec", "mcall:on_surface": ("tuple", [("tuple", "$vec"), ("tuple", "$vec"), ("tuple", "$vec", "$vec")], ("tuple", [0.0, 1e-13, -1e-13, 3e-13, -0.1, 0.2]), ("tuple", [0, 1, 2])), "attr:face_normals": ("tuple", "$vec", "$vec", "$vec")}, trials=120)
def mesh_normal(self, surface_point):
    points, distances, triangles = self.trimesh.nearest.on_surface(np.array([surface_point]))
    if len(points) != 1:
        raise GeometryError("")
    if not abs(distances[0]) < EPS_ZERO:
        raise GeometryError("")
    return self.trimesh.face_normals[triangles[0]]


@spec("pvtrace/geometry/mesh.py:Mesh.is_on_surface", props="P38", domain={"sym:point": "$vec", "mcall:on_surface": ("tuple", ("tuple", "$vec"), ("tuple", [0.0, 1e-13, -1e-13, 3e-13, -0.1, 0.2]), ("tuple", [0, 1, 2]))}, trials=100)
def mesh_on(self, point):
    points, distances, triangles = self.trimesh.nearest.on_surface(np.array([point]))
    return abs(distances[0]) < EPS_ZERO


@spec("pvtrace/geometry/mesh.py:Mesh.is_entering", props="P38", opaque=("normal",), domain={"sym:surface_point": "$vec", "sym:direction": "$vec", "normal": "$vec"})
def mesh_entering(self, surface_point, direction):
    return np.dot(self.normal(surface_point), direction) < 0.0


@spec("pvtrace/geometry/mesh.py:Mesh.__init__", props="P38 P31")
def mesh_init(self, trimesh, material=None):
    trimesh.vertices -= trimesh.center_mass
    self.trimesh = trimesh
    self._material = material


@spec("pvtrace/geometry/box.py:Box.__init__", props="P38 P31")
def box_init(self, size, material=None):
    self._size = np.array(size)
    mesh = trimesh.creation.box(size)
    mesh.vertices -= mesh.center_mass
    self.trimesh = mesh
    self._material = material


import trimesh
