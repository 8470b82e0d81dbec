"""Components, materials and spectra."""
import numpy as np
from dataclasses import replace
from pvtrace.material.distribution import Distribution
from pvtrace.material.utils import isotropic, gaussian
from pvtrace.material.surface import Surface


@spec("pvtrace/material/component.py:Component.is_radiative", props="P01")
def component_is_radiative(self, ray):
    return False


@spec("pvtrace/material/component.py:Component.nonradiative_absorb", props="P09")
def component_nonradiative(self, ray):
    return ray


@spec("pvtrace/material/component.py:Component.__init__", props="P24")
def component_init(self, name='Component'):
    self.name = name


def attenuation(coefficient, x, hist):
    if coefficient is None:
        raise ValueError()
    if isinstance(coefficient, (int, float)):
        return Distribution(x=None, y=float(coefficient), hist=hist)
    if isinstance(coefficient, np.ndarray):
        return Distribution(x=coefficient[:, 0], y=coefficient[:, 1], hist=hist)
    if isinstance(coefficient, (list, tuple)):
        if x is None:
            raise ValueError()
        return Distribution.from_functions(x, coefficient, hist=hist)


def scatterer_setup(self, coefficient, x, quantum_yield, tau_rad, tau_nr, phase_function, hist, name):
    self.name = name
    self._coefficient = coefficient
    a = attenuation(coefficient, x, hist)
    if coefficient is not None and isinstance(coefficient, (int, float, np.ndarray, list, tuple)):
        self._abs_dist = a
    if tau_rad is not None and tau_nr is not None:
        qy = tau_nr / (tau_nr + tau_rad)
    elif quantum_yield is not None:
        qy = quantum_yield
    else:
        raise ValueError()
    if not np.isfinite(qy):
        raise ValueError()
    self.quantum_yield = qy
    self.tau_rad = tau_rad
    self.tau_nr = tau_nr
    if phase_function is None:
        phase_function = isotropic
    self.phase_function = phase_function


COEF = "coefficient kinds"


@spec("pvtrace/material/component.py:Scatterer.__init__", trials=300, props="P04 P31 P01 P03", opaque=("Distribution", "from_functions"), domain={"sym:tau_rad": [None, "$pos", 0.0], "sym:tau_nr": [None, "$pos"], "sym:quantum_yield": [None, "$unit", "$unit"]})
def scatterer_init(self, coefficient, x=None, quantum_yield=1.0, tau_rad=None, tau_nr=None, phase_function=None, hist=False, name='Scatterer'):
    scatterer_setup(self, coefficient, x, quantum_yield, tau_rad, tau_nr, phase_function, hist, name)


@spec("pvtrace/material/component.py:Scatterer.coefficient", props="P04", opaque=("__call__",))
def scatterer_coefficient(self, wavelength):
    return self._abs_dist(wavelength)


@spec("pvtrace/material/component.py:Scatterer.is_radiative", props="P01", domain={"attr:quantum_yield": [0.0, 1.0, "$unit"]})
def scatterer_is_radiative(self, ray):
    return np.random.uniform() < self.quantum_yield


@spec("pvtrace/material/component.py:Scatterer.nonradiative_absorb", props="P03 P09", domain={"attr:tau_nr": [None, 0.0, "$pos"], "attr:duration": "$pos"})
def scatterer_nonradiative(self, ray):
    if self.tau_nr:
        return replace(ray, duration=ray.duration - self.tau_nr * np.log(1 - np.random.uniform()))
    return ray


@spec("pvtrace/material/component.py:Scatterer.emit", props="P06 P09 P01")
def scatterer_emit(self, ray):
    return replace(ray, direction=self.phase_function(), source=self.name)


@spec("pvtrace/material/component.py:Absorber.__init__", trials=300, props="P01 P04 P31", opaque=("Distribution", "from_functions"), domain={"sym:tau_nr": [None, "$pos"]})
def absorber_init(self, coefficient, x=None, tau_nr=None, name='Absorber', hist=False):
    scatterer_setup(self, coefficient, x, 0.0, 0.0, tau_nr, None, hist, name)


@spec("pvtrace/material/component.py:Absorber.is_radiative", props="P01")
def absorber_is_radiative(self, ray):
    return False


@spec("pvtrace/material/component.py:Reactor.__init__", trials=300, props="P01 P04 P31", opaque=("Distribution", "from_functions"))
def reactor_init(self, coefficient, x=None, name='Reactor', hist=False):
    scatterer_setup(self, coefficient, x, 0.0, 0.0, None, None, hist, name)


@spec("pvtrace/material/component.py:Reactor.is_radiative", props="P01")
def reactor_is_radiative(self, ray):
    return False


@spec("pvtrace/material/component.py:Luminophore.__init__", trials=500, props="P06 P31 P04 P01 P03", opaque=("Distribution", "from_functions"), domain={"sym:tau_rad": [None, "$pos", 0.0], "sym:tau_nr": [None, "$pos"], "sym:quantum_yield": [None, "$unit", "$unit"]})
def luminophore_init(self, coefficient, emission=None, x=None, hist=False, quantum_yield=1.0, tau_rad=None, tau_nr=None, phase_function=None, name='Luminophore'):
    scatterer_setup(self, coefficient, x, quantum_yield, tau_rad, tau_nr, phase_function, hist, name)
    self._emission = emission
    if emission is None:
        self._ems_dist = Distribution.from_functions(x, [lambda x: gaussian(x, 1.0, 600.0, 40.0)], hist=hist)
    elif isinstance(emission, np.ndarray):
        self._ems_dist = Distribution(x=emission[:, 0], y=emission[:, 1], hist=hist)
    elif isinstance(emission, (tuple, list)):
        if x is None:
            raise ValueError()
        self._ems_dist = Distribution.from_functions(x, emission, hist=hist)
    else:
        raise ValueError()


@spec("pvtrace/material/component.py:Luminophore.emit", props="P06 P03 P09", opaque=("lookup", "sample"), domain={"sym:method": ["kT", "redshift", "full", "boltzmann", "other"], "attr:tau_rad": [None, 0.0, "$pos"], "attr:wavelength": "$pos", "attr:duration": "$pos", "sym:T": [300.0, "$pos"], "pcall:lookup": "$unit"})
def luminophore_emit(self, ray, method='kT', T=300.0):
    direction = self.phase_function()
    if method == "full":
        p1 = 0.0
    elif method == "redshift":
        p1 = self._ems_dist.lookup(ray.wavelength)
    elif method == "kT":
        energy = 1240.0 / ray.wavelength + 1.5 * (1.380649e-23 / 1.60217662e-19) * T
        p1 = self._ems_dist.lookup(1240.0 / energy)
    elif method == "boltzmann":
        raise NotImplementedError()
    else:
        raise ValueError()
    wavelength = self._ems_dist.sample(p1 + (1 - p1) * np.random.uniform())
    delay = 0.0
    if self.tau_rad:
        delay = -self.tau_rad * np.log(1 - np.random.uniform())
    return replace(ray, direction=direction, wavelength=wavelength, source=self.name, duration=ray.duration + delay)


@spec("pvtrace/material/material.py:Material.__init__", props="P04 P05 P31")
def material_init(self, refractive_index, surface=None, components=None):
    self.refractive_index = refractive_index
    if surface is None:
        surface = Surface()
    self.surface = surface
    if components is None:
        components = []
    self.components = components


def alpha_total(self, wavelength):
    return np.sum([c.coefficient(wavelength) for c in self.components])


@spec("pvtrace/material/material.py:Material.total_attenutation_coefficient", props="P04", opaque=("coefficient",), domain={"pcall:coefficient": "$pos"})
def total_attenuation(self, wavelength):
    total = 0.0
    for c in self.components:
        total = total + c.coefficient(wavelength)
    return total


def depth(self, wavelength):
    alpha = alpha_total(self, wavelength)
    if np.isclose(alpha, 0.0):
        return float("inf")
    if not np.isfinite(alpha):
        return 0.0
    return -np.log(1 - np.random.uniform()) / alpha


@spec("pvtrace/material/material.py:Material.penetration_depth", props="P04", opaque=("coefficient",), domain={"pcall:coefficient": [0.0, 1e-12, "$inf", "$pos"]})
def penetration_depth(self, wavelength):
    return depth(self, wavelength)


@spec("pvtrace/material/material.py:Material.is_absorbed", props="P04", opaque=("coefficient",), domain={"pcall:coefficient": [0.0, "$pos"], "sym:full_distance": "$pos"})
def is_absorbed(self, ray, full_distance):
    d = depth(self, ray.wavelength)
    return (d < full_distance, d)


@spec("pvtrace/material/material.py:Material.is_absorbed", props="P04", opaque=("penetration_depth",), domain={"pcall:penetration_depth": ["$inf", "$pos", 1.0, ("near", 1.0), ("near", 1.0)], "sym:full_distance": [1.0, ("near", 1.0), "$pos", "$inf"]}, trials=200)
def is_absorbed_at(self, ray, full_distance):
    d = self.penetration_depth(ray.wavelength)
    return (d < full_distance, d)


@spec("pvtrace/material/material.py:Material.component", props="P04", opaque=("coefficient",), domain={"pcall:coefficient": [0.0, "$pos", "$pos", -1.0]})
def component(self, wavelength):
    coefs = np.array([c.coefficient(wavelength) for c in self.components])
    if np.any(coefs < 0.0):
        raise ValueError()
    u = np.random.uniform()
    total = np.sum(coefs)
    # component i with probability coef[i] / total
    index = 0
    acc = 0.0
    if len(coefs) == 0:
        return coefs[:0][0]
    for i in range(len(coefs)):
        if u * total >= acc:
            index = i
        acc = acc + coefs[i]
    return self.components[index]
