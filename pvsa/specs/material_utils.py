"""Optics and sampling formulas (pvtrace.material.utils)."""
import numpy as np

UNIT = "sampling functions draw their uniform numbers in a fixed order"


@spec("pvtrace/material/utils.py:fresnel_reflectivity", props="P05", domain={"sym:angle": ["$unit", "$num"], "sym:n1": ("range", 1.0, 2.0), "sym:n2": ("range", 1.0, 2.0)})
def fresnel_reflectivity(angle, n1, n2):
    # total internal reflection
    if n2 < n1 and angle > np.arcsin(n2 / n1):
        return 1.0
    cos_i = np.cos(angle)
    cos_t = np.sqrt(1 - (n1 * np.sin(angle) / n2) ** 2)
    r_s = (n1 * cos_i - n2 * cos_t) / (n1 * cos_i + n2 * cos_t)
    r_p = (n1 * cos_t - n2 * cos_i) / (n1 * cos_t + n2 * cos_i)
    return (r_s ** 2 + r_p ** 2) / 2


@spec("pvtrace/material/utils.py:specular_reflection", props="P05", domain={"sym:direction": "$vec", "sym:normal": "$vec"})
def specular_reflection(direction, normal):
    d, n = np.array(direction), np.array(normal)
    return d - 2 * np.dot(d, n) * n


@spec("pvtrace/material/utils.py:fresnel_refraction", props="P05", domain={"sym:direction": "$uvec", "sym:normal": "$uvec", "sym:n1": ("range", 1.0, 2.0), "sym:n2": ("range", 1.0, 2.0)})
def fresnel_refraction(direction, normal, n1, n2):
    d, m = np.array(direction), np.array(normal)
    eta = n1 / n2
    if np.dot(d, m) < 0:
        m = -m
    cos_i = np.dot(d, m)
    cos_t = np.sqrt(1 - eta ** 2 * (1 - cos_i ** 2))
    return eta * d + (cos_t - eta * cos_i) * m


def unit_vector(cos_theta, sin_theta, phi):
    return np.array([sin_theta * np.cos(phi), sin_theta * np.sin(phi), cos_theta])


@spec("pvtrace/material/utils.py:spherical_to_cart", props="P37", domain={"sym:theta": "$num", "sym:phi": "$num", "sym:r": "$num"})
def spherical_to_cart(theta, phi, r=1):
    return r * unit_vector(np.cos(theta), np.sin(theta), phi)


@spec("pvtrace/material/utils.py:isotropic", props="P37 P06")
def isotropic():
    u1, u2 = np.random.uniform(0, 1, 2)
    c = 2 * u2 - 1
    return unit_vector(c, np.sqrt(1 - c * c), 2 * np.pi * u1)


@spec("pvtrace/material/utils.py:henyey_greenstein", props="P37", domain={"sym:g": [0.0, 1e-13, ("range", -0.95, 0.95)]})
def henyey_greenstein(g=0.0):
    if abs(g) < np.finfo(float).eps * 1000:
        return isotropic()
    u = np.random.uniform()
    s = (1 - g ** 2) / (1 - g + 2 * g * u)
    c = (1 + g ** 2 - s ** 2) / (2 * g)
    return unit_vector(c, np.sqrt(1 - c * c), 2 * np.pi * np.random.uniform())


@spec("pvtrace/material/utils.py:HenyeyGreenstein.__init__", props="P37 P31")
def henyey_greenstein_init(self, g):
    self.g = float(g)


@spec("pvtrace/material/utils.py:HenyeyGreenstein.__call__", props="P37", domain={"attr:g": [0.0, 1e-13, ("range", -0.95, 0.95)]})
def henyey_greenstein_call(self):
    return henyey_greenstein(self.g)


@spec("pvtrace/material/utils.py:cone", props="P37", domain={"sym:theta_max": [0.0, 1e-9, ("range", 0.01, 1.57), ("range", 1.58, 4.0)]})
def cone(theta_max):
    if theta_max > np.pi / 2 or np.isclose(theta_max, 0.0):
        raise ValueError()
    u1, u2 = np.random.uniform(0, 1, 2)
    s = np.sqrt(u1) * np.sin(theta_max)
    return unit_vector(np.sqrt(1 - s * s), s, 2 * np.pi * u2)


@spec("pvtrace/material/utils.py:Cone.__init__", props="P37 P31")
def cone_init(self, theta_max):
    self.theta_max = float(theta_max)


@spec("pvtrace/material/utils.py:Cone.__call__", props="P37", domain={"attr:theta_max": [0.0, 1e-9, ("range", 0.01, 1.57), ("range", 1.58, 4.0)]})
def cone_call(self):
    return cone(self.theta_max)


@spec("pvtrace/material/utils.py:lambertian", props="P37")
def lambertian():
    u1, u2 = np.random.uniform(0, 1, 2)
    s = np.sqrt(u1)
    return unit_vector(np.sqrt(1 - s * s), s, 2 * np.pi * u2)


@spec("pvtrace/material/utils.py:gaussian", props="P37", domain={"sym:x": "$num", "sym:c1": "$num", "sym:c2": "$num", "sym:c3": "$pos"})
def gaussian(x, c1, c2, c3):
    return c1 * np.exp(-((x - c2) ** 2) / c3 ** 2)


@spec("pvtrace/material/utils.py:bandgap", props="P37", domain={"sym:x": "$num", "sym:cutoff": "$num", "sym:alpha": "$num"})
def bandgap(x, cutoff, alpha):
    return alpha * (1 - np.heaviside(x - cutoff, 0.5))


@spec("pvtrace/light/light.py:default_wavelength", props="P21 P37")
def default_wavelength():
    return 555.0


@spec("pvtrace/light/light.py:default_position", props="P21 P37")
def default_position():
    return (0.0, 0.0, 0.0)


@spec("pvtrace/light/light.py:default_direction", props="P21 P37")
def default_direction():
    return (0.0, 0.0, 1.0)


@spec("pvtrace/light/light.py:rectangular_mask", props="P37 P21", domain={"sym:X": "$num", "sym:Y": "$num"})
def rectangular_mask(X, Y):
    return ((2 * np.random.uniform() - 1) * X, (2 * np.random.uniform() - 1) * Y, 0.0)


@spec("pvtrace/light/light.py:circular_mask", props="P37 P21", domain={"sym:radius": "$num"})
def circular_mask(radius):
    phi = 2 * np.pi * np.random.uniform()
    r = radius * np.sqrt(np.random.uniform())
    return (r * np.cos(phi), r * np.sin(phi), 0.0)


@spec("pvtrace/light/light.py:cube_mask", props="P37 P21", domain={"sym:X": "$num", "sym:Y": "$num", "sym:Z": "$num"})
def cube_mask(X, Y, Z):
    return ((2 * np.random.uniform() - 1) * X, (2 * np.random.uniform() - 1) * Y, (2 * np.random.uniform() - 1) * Z)


@spec("pvtrace/light/light.py:DefaultWavelength.__call__", props="P21")
def default_wavelength_call(self):
    return 555.0


@spec("pvtrace/light/light.py:DefaultPosition.__call__", props="P21")
def default_position_call(self):
    return (0.0, 0.0, 0.0)


@spec("pvtrace/light/light.py:DefaultDirection.__call__", props="P21")
def default_direction_call(self):
    return (0.0, 0.0, 1.0)


@spec("pvtrace/light/light.py:ConstantWavelengthMask.__init__", props="P21 P31")
def constant_init(self, nanometers):
    self.nanometers = float(nanometers)


@spec("pvtrace/light/light.py:ConstantWavelengthMask.__call__", props="P21")
def constant_call(self):
    return self.nanometers


@spec("pvtrace/light/light.py:SpectrumWavelengthMask.__init__", props="P21 P31")
def spectrum_init(self, distribution):
    self.distribution = distribution


@spec("pvtrace/light/light.py:SpectrumWavelengthMask.__call__", props="P21 P37", opaque=("sample",))
def spectrum_call(self):
    return self.distribution.sample(np.random.uniform())


@spec("pvtrace/light/light.py:RectangularMask.__init__", props="P37 P21 P31")
def rectangular_init(self, x, y):
    self.x = float(x)
    self.y = float(y)


@spec("pvtrace/light/light.py:RectangularMask.__call__", props="P37 P21", domain={"attr:x": "$num", "attr:y": "$num"})
def rectangular_call(self):
    return rectangular_mask(self.x, self.y)


@spec("pvtrace/light/light.py:CircularMask.__init__", props="P37 P21 P31")
def circular_init(self, radius):
    self.radius = radius


@spec("pvtrace/light/light.py:CircularMask.__call__", props="P37 P21", domain={"attr:radius": "$num"})
def circular_call(self):
    return circular_mask(self.radius)


@spec("pvtrace/light/light.py:CubeMask.__init__", props="P37 P21 P31")
def cube_init(self, x, y, z):
    self.x = x
    self.y = y
    self.z = z


@spec("pvtrace/light/light.py:CubeMask.__call__", props="P37 P21", domain={"attr:x": "$num", "attr:y": "$num", "attr:z": "$num"})
def cube_call(self):
    return cube_mask(self.x, self.y, self.z)
