"""User-defined components (public interfaces only) that record every call: the trace the online monitors judge.

The simulation copies components, so the trace is kept in the module and probes are identified by their name."""
import copy

import numpy as np

from simcats.distortions import (OccupationDistortionInterface, SensorPotentialDistortionInterface,
                                 SensorResponseDistortionInterface)
from simcats.ideal_csd import IdealCSDInterface
from simcats.sensor import SensorGeneric, SensorScanSensorGeneric, SensorInterface

LOG = []


def cp(x):
    return None if x is None else copy.deepcopy(x)


def log(kind, name, **kw):
    LOG.append(dict(kind=kind, name=name, **{k: cp(v) for k, v in kw.items()}))


def take():
    out = list(LOG)
    LOG.clear()
    return out


def shape_of(res):
    if isinstance(res, (int, np.integer)):
        return (int(res),)
    res = [int(x) for x in res]
    return (res[0],) if len(res) == 1 else (res[1], res[0])


class ProbeCSD(IdealCSDInterface):
    """Smooth 'diagram': values are functions of the voltages only, so misplaced pixels are visible."""

    def __init__(self, name="csd", k=(1.0, 2.0, 3.0, 5.0), unlabelled=None, flat=""):
        self.name, self.k = name, tuple(k)
        self.flat = flat                    # data that offer shortcuts: "labels", "empty", "integer", "constant"
        self.unlabelled = unlabelled        # (gate, voltage): no labels at this gate's voltages above


    def values(self, v1, v2):
        k = self.k
        o1 = 2 + np.sin(k[0] * v1 * 37 + k[1] * v2 * 11)
        o2 = 3 + np.cos(k[2] * v1 * 17 + k[3] * v2 * 29)
        lab = np.floor(7 + 5 * np.sin(v1 * 31 + v2 * 23)).astype(np.uint8)
        if self.unlabelled is not None:
            lab[(v1, v2)[self.unlabelled[0]] > self.unlabelled[1]] = 0
        if self.flat:
            lab = np.zeros_like(lab)
        if self.flat == "empty":
            o1, o2 = o1 * 0, o2 * 0
        elif self.flat == "integer":
            o1, o2 = np.round(o1), np.round(o2)
        elif self.flat == "constant":
            o1, o2 = o1 * 0 + 1.0, o2 * 0 + 2.0
        return np.stack([o1, o2], axis=-1), lab

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=np.array([100, 100])):
        log("csd", self.name, g1=volt_limits_g1, g2=volt_limits_g2, res=resolution)
        sh = shape_of(resolution)
        if len(sh) == 1:
            v1 = np.linspace(volt_limits_g1[0], volt_limits_g1[1], sh[0])
            v2 = np.linspace(volt_limits_g2[0], volt_limits_g2[1], sh[0])
        else:
            v1, v2 = np.meshgrid(np.linspace(volt_limits_g1[0], volt_limits_g1[1], sh[1]),
                                 np.linspace(volt_limits_g2[0], volt_limits_g2[1], sh[0]))
        return self.values(v1, v2)


class ProbeOcc(OccupationDistortionInterface):
    """Affine map of occupations and labels; `inplace` modifies the passed arrays, otherwise new arrays are returned.
    `sampled` draws a new factor whenever it is not frozen; `regen` regenerates shifted data through generate_csd."""

    def __init__(self, name, a=1.0, b=0.0, c=0, inplace=True, sampled=False, seed=0, regen=None):
        self.name, self.a, self.b, self.c, self.inplace = name, a, b, c, inplace
        self.sampled, self.rng, self.regen = sampled, np.random.default_rng(seed), regen
        self.last = None

    def apply(self, occ, lab, x=0.0):
        return (self.a + x) * occ + self.b, lab + np.asarray(self.c).astype(lab.dtype)

    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None, freeze=False):
        if not freeze:
            self.last = float(self.rng.uniform(0.1, 0.9)) if self.sampled else 0.0
        log("occ", self.name, occ=occupations, lab=lead_transitions, g1=volt_limits_g1, g2=volt_limits_g2, freeze=freeze,
            last=self.last, has_gen=generate_csd is not None)
        if self.regen is not None and not freeze:
            d1, d2, res = self.regen
            o, l = generate_csd((volt_limits_g1[0] + d1, volt_limits_g1[1] + d1),
                                (volt_limits_g2[0] + d2, volt_limits_g2[1] + d2), res)
            log("regen", self.name, occ=o, lab=l)
        o, l = self.apply(occupations, lead_transitions, self.last)
        if self.inplace:
            occupations[...] = o
            lead_transitions[...] = l
            return occupations, lead_transitions
        return o, l


class ProbePot(SensorPotentialDistortionInterface):
    def __init__(self, name, a=1.0, b=0.0, inplace=False):
        self.name, self.a, self.b, self.inplace = name, a, b, inplace

    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        log("pot", self.name, x=mu_sens, g1=volt_limits_g1, g2=volt_limits_g2)
        return self.a * mu_sens + self.b


class ProbeResp(SensorResponseDistortionInterface):
    def __init__(self, name, a=1.0, b=0.0):
        self.name, self.a, self.b = name, a, b

    def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
        log("resp", self.name, x=sensor_response, g1=volt_limits_g1, g2=volt_limits_g2)
        return self.a * sensor_response + self.b


class ProbeSensor(SensorInterface):
    """Plain sensor (single potential)."""

    def __init__(self, name="sensor", alpha=(0.3, -0.7)):
        self.name, self.alpha = name, np.array(alpha)

    def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2):
        log("potential", self.name, occ=occupations, g1=volt_limits_g1, g2=volt_limits_g2)
        return occupations @ self.alpha + 0.1

    def sensor_response(self, mu_sens):
        log("response", self.name, x=mu_sens)
        return np.tanh(mu_sens) + 0.2


class ProbeGeneric(SensorGeneric):
    name = "sensor"

    def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2):
        log("potential", self.name, occ=occupations, g1=volt_limits_g1, g2=volt_limits_g2)
        return super().sensor_potential(occupations, volt_limits_g1, volt_limits_g2)

    def sensor_response(self, mu_sens):
        log("response", self.name, x=mu_sens)
        return super().sensor_response(mu_sens)


class ProbeScan(SensorScanSensorGeneric):
    """Scan sensor that records the calls of the simulation (not the ones it makes itself)."""
    name = "sensor"
    _depth = 0
    dup = False       # the two barriers see the same potential

    def _rec(self, *a, **k):
        if self._depth == 0:
            log(*a, **k)

    def sensor_potential(self, occupations, volt_limits_g1=None, volt_limits_g2=None, volt_limits_sensor_g1=None,
                         volt_limits_sensor_g2=None):
        self._rec("potential", self.name, occ=occupations, g1=volt_limits_g1, g2=volt_limits_g2, s1=volt_limits_sensor_g1,
                  s2=volt_limits_sensor_g2)
        self._depth += 1
        try:
            p = super().sensor_potential(occupations, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1,
                                         volt_limits_sensor_g2)
            if self.dup:
                p = np.array([p[0], p[1], p[1]])
            return p
        finally:
            self._depth -= 1

    def sensor_response(self, mu_sens):
        self._rec("response", self.name, x=mu_sens)
        self._depth += 1
        try:
            return super().sensor_response(mu_sens)
        finally:
            self._depth -= 1

    def get_sensor_scan_labels(self, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2, potential):
        self._rec("labels", self.name, g1=volt_limits_g1, g2=volt_limits_g2, s1=volt_limits_sensor_g1,
                  s2=volt_limits_sensor_g2, pot=potential)
        self._depth += 1
        try:
            return super().get_sensor_scan_labels(volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1,
                                                  volt_limits_sensor_g2, potential)
        finally:
            self._depth -= 1
