"""Builds random simulations together with requests inside of their domain."""
import numpy as np

from . import gen, ref
from .core import Skip


class Setup:
    """A simulation configuration (keyword arguments) with its reference diagram and a valid window."""

    def __init__(self, rng, sensor="any", occ=0, pot=0, resp=0, size=(0.008, 0.05), res=(12, 70), n_tct=None, lut=True,
                 rise=None, decay=None):
        self.rng = rng
        self.ikw = gen.ideal_kwargs(rng, n=n_tct, lut=lut, decay=decay)
        self.ref = gen.csd_ref(self.ikw)
        self.w1, self.w2 = gen.window(rng, self.ref, size=size)
        # pixels of 2D scans reach half a pitch beyond the window: keep them below the last transition
        room = -self.ref.margins(ref.grid(self.w1, self.w2, [40, 40]))[-1].max()
        for _ in range(30):
            self.res = gen.resolution2(rng, self.w1, self.w2, *res)
            p1 = (self.w1[1] - self.w1[0]) / (self.res[0] - 1)
            p2 = (self.w2[1] - self.w2[0]) / (self.res[1] - 1)
            if room > 1.2 * np.hypot(p1, p2):
                break
        else:
            raise Skip("window too close to the last transition for this pixel size")
        if sensor == "any":
            sensor = "generic" if rng.random() < 0.7 else "scan"
        self.kind = sensor
        self.s1 = self.s2 = None
        if sensor == "generic":
            self.sensor = gen.generic(rng)
        else:
            self.sensor, self.sw1, self.sw2 = gen.scan_sensor(rng, rise=rise)
            self.s1, self.s2 = float(gen.u(rng, *self.sw1)), float(gen.u(rng, *self.sw2))
            if sensor == "scan" and rng.random() < 0.15:
                self.s1 = self.s2 = None
            elif rng.random() < 0.08:                           # 0 V is a voltage
                self.s1, self.s2 = [(0.0, self.s2), (self.s1, 0.0), (0.0, 0.0)][rng.integers(3)]
        self.span = max(self.w1[1] - self.w1[0], self.w2[1] - self.w2[0])
        self.occ = gen.occ_distortions(rng, self.span, occ) if occ is None or occ else None
        self.pot = gen.pot_distortions(rng, self.span, pot) if pot is None or pot else None
        self.resp = gen.resp_distortions(rng, self.span, resp) if resp is None or resp else None
        self.limits = (None, None, None, None)

    def sim(self, **over):
        from simcats import Simulation
        kw = dict(volt_limits_g1=self.limits[0], volt_limits_g2=self.limits[1], volt_limits_sensor_g1=self.limits[2],
                  volt_limits_sensor_g2=self.limits[3], ideal_csd_config=gen.ideal(self.ikw), sensor=self.sensor,
                  occupation_distortions=self.occ, sensor_potential_distortions=self.pot,
                  sensor_response_distortions=self.resp)
        kw.update(over)
        return Simulation(**kw)

    def request(self, two_d=None, n=None):
        """(kwargs for measure, kind): random direction and dimension."""
        rng = self.rng
        two_d = rng.random() < 0.6 if two_d is None else two_d
        if two_d:
            v1, v2 = gen.flip(rng, self.w1), gen.flip(rng, self.w2)
            res, kind = np.array(self.res), "2d"
        else:
            v1, v2, kind = gen.line(rng, self.ref)
            res = int(n or gen.n1(rng))
            if any(type(d).__name__ == "OccupationDotJumps" for d in self.occ or []):
                res = int(np.clip(res, 2, 120))     # replays of chained jumps grow quickly with the number of pixels
        kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=res)
        if self.kind != "generic":
            kw.update(volt_sensor_g1=self.s1, volt_sensor_g2=self.s2)
        return kw, kind

    def scan_request(self, two_d=None, n=None, hi=40):
        """kwargs for measure_sensor_scan."""
        rng = self.rng
        two_d = rng.random() < 0.6 if two_d is None else two_d
        v1, v2 = gen.flip(rng, self.sw1), gen.flip(rng, self.sw2)
        if two_d:
            res = np.array(gen.resolution(rng, True, (8, hi), None))
        else:
            res = int(n or gen.resolution(rng, False, None, (10, 3 * hi)))
            k = rng.integers(4)
            if k == 0:
                v1 = np.full(2, gen.u(rng, *np.sort(v1)))
            elif k == 1:
                v2 = np.full(2, gen.u(rng, *np.sort(v2)))
        g1 = g2 = None
        if rng.random() < 0.8:
            g1, g2 = float(gen.u(rng, *self.w1)), float(gen.u(rng, *self.w2))
        return dict(sweep_range_sensor_g1=v1, sweep_range_sensor_g2=v2, volt_g1=g1, volt_g2=g2, resolution=res)

    def describe(self):
        return dict(n_tct=len(self.ikw["tct_params"]), lut=self.ikw["lut_entries"], rotation=self.ikw["rotation"],
                    cdf=self.ikw["cdf_type"], sensor=self.kind, occ=[type(d).__name__ for d in self.occ or []],
                    pot=[type(d).__name__ for d in self.pot or []], resp=[type(d).__name__ for d in self.resp or []])
