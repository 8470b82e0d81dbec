"""Surfaces (pvtrace.material.surface)."""
import numpy as np
from dataclasses import replace
from pvtrace.material.utils import fresnel_reflectivity, specular_reflection, fresnel_refraction
from pvtrace.material.surface import FresnelSurfaceDelegate

VECS = "unit vectors"


@spec("pvtrace/material/surface.py:NullSurfaceDelegate.reflectivity", props="P05")
def null_reflectivity(self, surface, ray, geometry, container, adjacent):
    return 0.0


@spec("pvtrace/material/surface.py:NullSurfaceDelegate.transmitted_direction", props="P05")
def null_transmitted(self, surface, ray, geometry, container, adjacent):
    return ray.direction


def angle(n, d):
    n = np.array(n)
    d = np.array(d)
    if np.allclose(n, d):
        return 0.0
    if np.allclose(-n, d):
        return np.pi
    return np.arccos(np.dot(n, d))


@spec("pvtrace/geometry/utils.py:angle_between", trials=400, props="P05", domain={"sym:normal": "$axis", "sym:vector": "$axis"})
def angle_between(normal, vector):
    return angle(normal, vector)


@spec("pvtrace/geometry/utils.py:flip", props="P05", domain={"sym:vector": "$vec"})
def flip(vector):
    return -np.array(vector)


DOM = {"attr:direction": "$axis", "mcall:normal": "$axis", "attr:refractive_index": ("range", 1.0, 2.0)}


@spec("pvtrace/material/surface.py:FresnelSurfaceDelegate.reflectivity", props="P05", opaque=("normal", "fresnel_reflectivity"), domain={"attr:direction": "$axis", "mcall:normal": "$axis", "attr:refractive_index": ("range", 1.0, 2.0), "pcall:fresnel_reflectivity": "$unit"})
def fresnel_delegate_reflectivity(self, surface, ray, geometry, container, adjacent):
    n1 = container.geometry.material.refractive_index
    n2 = adjacent.geometry.material.refractive_index
    normal = np.array(geometry.normal(ray.position))
    if np.dot(normal, ray.direction) < 0.0:
        normal = -normal
    return fresnel_reflectivity(angle(normal, ray.direction), n1, n2)


@spec("pvtrace/material/surface.py:FresnelSurfaceDelegate.reflected_direction", props="P05", opaque=("normal",), domain={"attr:direction": "$uvec", "mcall:normal": "$uvec"})
def fresnel_delegate_reflected(self, surface, ray, geometry, container, adjacent):
    n = np.array(geometry.normal(ray.position))
    d = np.array(ray.direction)
    return tuple(d - 2 * np.dot(d, n) * n)


@spec("pvtrace/material/surface.py:FresnelSurfaceDelegate.transmitted_direction", props="P05", opaque=("normal",), domain={"attr:direction": "$uvec", "mcall:normal": "$uvec", "attr:refractive_index": ("range", 1.0, 1.6)}, trials=90)
def fresnel_delegate_transmitted(self, surface, ray, geometry, container, adjacent):
    m = np.array(geometry.normal(ray.position))
    d = np.array(ray.direction)
    eta = container.geometry.material.refractive_index / adjacent.geometry.material.refractive_index
    if np.dot(d, m) < 0:
        m = -m
    cos_i = np.dot(d, m)
    cos_t = np.sqrt(1 - eta ** 2 * (1 - cos_i ** 2))
    return tuple(eta * d + (cos_t - eta * cos_i) * m)


@spec("pvtrace/material/surface.py:Surface.__init__", props="P05")
def surface_init(self, delegate=None):
    if delegate is None:
        delegate = FresnelSurfaceDelegate()
    self._delegate = delegate


@spec("pvtrace/material/surface.py:Surface.delegate", props="P05")
def surface_delegate(self):
    return self._delegate


@spec("pvtrace/material/surface.py:Surface.is_reflected", props="P05", opaque=("reflectivity",), domain={"mcall:reflectivity": [0.0, 1.0, "$unit", "$unit", 1e-4, 1e-3, 0.005, 0.02, 0.05, 0.97, 0.999, "$opq"]}, trials=240)
def is_reflected(self, ray, geometry, container, adjacent):
    r = self._delegate.reflectivity(self, ray, geometry, container, adjacent)
    if not isinstance(r, (int, float)):
        raise ValueError()
    if r == 0.0:
        return False
    return np.random.uniform() < r


@spec("pvtrace/material/surface.py:Surface.reflect", props="P05 P09", opaque=("reflected_direction",), domain={"mcall:reflected_direction": ["$vec", "$opq", "$num", "$pair", "$nums", "$nums"]})
def reflect(self, ray, geometry, container, adjacent):
    d = self._delegate.reflected_direction(self, ray, geometry, container, adjacent)
    if not isinstance(d, tuple) or len(d) != 3:
        raise ValueError()
    return replace(ray, direction=d)


@spec("pvtrace/material/surface.py:Surface.transmit", props="P05 P09", opaque=("transmitted_direction",), domain={"mcall:transmitted_direction": ["$vec", "$opq", "$num", "$pair", "$nums", "$nums"]})
def transmit(self, ray, geometry, container, adjacent):
    d = self._delegate.transmitted_direction(self, ray, geometry, container, adjacent)
    if not isinstance(d, tuple) or len(d) != 3:
        raise ValueError()
    return replace(ray, direction=d)
