"""Rays, lights and emission."""
import numpy as np
from dataclasses import replace
from pvtrace.light.ray import Ray
from pvtrace.common.errors import AppError

C_CM_PER_S = 299792458.0 * 100.0


@spec("pvtrace/light/ray.py:Ray.propagate", props="P03 P09", domain={"attr:position": "$vec", "attr:direction": "$vec", "attr:travelled": "$num", "attr:duration": ["$num", ("range", 0.0, 1e-9)], "sym:distance": "$num", "sym:refractive_index": ["$num", 1.0, ("range", 1e8, 1e10)]})
def propagate(self, distance, refractive_index):
    p, d = self.position, self.direction
    return replace(
        self,
        position=(p[0] + d[0] * distance, p[1] + d[1] * distance, p[2] + d[2] * distance),
        travelled=self.travelled + distance,
        duration=self.duration + refractive_index * distance / C_CM_PER_S,
    )


@spec("pvtrace/light/ray.py:Ray.representation", props="P07 P09", opaque=("point_to_node", "vector_to_node"))
def representation(self, from_node, to_node):
    return replace(
        self,
        position=from_node.point_to_node(self.position, to_node),
        direction=from_node.vector_to_node(self.direction, to_node),
    )


@spec("pvtrace/light/light.py:Light.__init__", props="P21 P31")
def light_init(self, wavelength=None, position=None, direction=None, name='Light'):
    if wavelength is None:
        wavelength = default_wavelength
    if position is None:
        position = default_position
    if direction is None:
        direction = default_direction
    self.wavelength = wavelength
    self.position = position
    self.direction = direction
    self.name = name


from pvtrace.light.light import default_wavelength, default_position, default_direction


@spec("pvtrace/light/light.py:Light.emit", props="P21", domain={"sym:num_rays": [None, 0, 1, 2, 3]}, rounds=5)
def light_emit(self, num_rays=None):
    n = 0
    while num_rays is None or n < num_rays:
        yield Ray(wavelength=self.wavelength(), position=self.position(), direction=self.direction(), source=self.name)
        n += 1


@spec("pvtrace/scene/node.py:Node.emit", props="P21", opaque=("emit",), domain={"sym:num_rays": [None, 0, 1, 2, 3]})
def node_emit(self, num_rays=None):
    if self.light is None:
        raise AppError("")
    for ray in self.light.emit(num_rays=num_rays):
        yield ray


@spec("pvtrace/scene/scene.py:Scene.emit", props="P21 P07", opaque=("emit", "representation", "light_nodes"), domain={"sym:num_rays": [0, 1, 2, 3, 4, 5]}, rounds=6)
def scene_emit(self, num_rays):
    lights = self.light_nodes
    for i in range(num_rays):
        node = lights[i % len(lights)]
        for ray in node.emit(1):
            yield ray.representation(node, self.root)
