"""P03: reversing a sweep direction mirrors the noise-free scan."""
import numpy as np

from vmon import gen
from vmon.sims import Setup

PID = "P03"
TITLE = "Reversing a sweep direction mirrors the noise-free scan"
RULE = ("random configurations without randomness (blurring allowed), every pair of directions of the same window: the mirrored "
        "result of one must be the other; non-trivial = the scan is not mirror symmetric itself")
ASSUMPTIONS = []
CASES = {"quick": 1600, "thorough": 60000}
REQUIRED = {"mirror_signal": 200, "mirror_occupations": 100, "mirror_labels": 100, "mirror_sensor_scan": 50}


def mirror(a, f1, f2):
    """Mirror of a 2D array (axis 0: gate 2, axis 1: gate 1)."""
    if f2:
        a = a[::-1]
    if f1:
        a = a[:, ::-1]
    return a


def judge(m, rng, s, sim):
    scan = s.kind == "scan" and rng.random() < 0.6
    if scan:
        kw = s.scan_request(hi=16 if len(s.sensor.sensor_peak_deformations) else 30)
        a, b, run = "sweep_range_sensor_g1", "sweep_range_sensor_g2", sim.measure_sensor_scan
    else:
        kw, _ = s.request()
        a, b, run = "sweep_range_g1", "sweep_range_g2", sim.measure
    o0 = run(**kw)
    two = not isinstance(kw["resolution"], int)
    combos = [(1, 0), (0, 1), (1, 1)] if two else [(1, 1)]
    for f1, f2 in combos:
        kw2 = dict(kw)
        if f1:
            kw2[a] = kw[a][::-1].copy()
        if f2:
            kw2[b] = kw[b][::-1].copy()
        o1 = run(**kw2)
        w = dict(config=s.describe(), request=kw, flipped=(f1, f2))
        mir = (lambda x: mirror(x, f1, f2)) if two else (lambda x: x[::-1])
        m.event(("sensor scan" if scan else "plunger scan") + (" 2D" if two else " 1D"))
        tol = 1e-9 * max(1e-3, float(np.abs(o0[0]).max()))
        name = "mirror_sensor_scan" if scan else "mirror_signal"
        m.close(o1[0], mir(o0[0]), name, "signal of the reversed sweep", rtol=1e-6, atol=tol, **w)
        m.close(o1[1], mir(o0[1]), name if scan else "mirror_occupations",
                "regime labels" if scan else "occupations", atol=1e-9, **w)
        m.close(o1[2], mir(o0[2]), name if scan else "mirror_labels", "labels", **w)
        if not np.allclose(mir(o0[0]), o0[0]):
            m.distinct(o0[0], f1, f2)
    m.sample(config=s.describe(), request=kw)


def run_case(m, rng, i):
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
    s = Setup(rng, res=(12, 50))
    if rng.random() < 0.6:
        s.occ = gen.occ_distortions(rng, s.span, kinds=("blur", "fermi"))
    judge(m, rng, s, s.sim())
