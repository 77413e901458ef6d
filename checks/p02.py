"""P02: every valid scan completes and returns well-formed finite results."""
import numpy as np

from vmon import gen
from vmon.core import digest
from vmon.sims import Setup

PID = "P02"
TITLE = "Every valid scan completes with well-formed, finite results"
RULE = ("random real configurations (geometric diagram, generic or scan sensor, random stacks of all built-in distortions), "
        "plunger and sensor scans in every dimension, direction, resolution format and size; non-trivial = distinct combination "
        "of configuration and request")
ASSUMPTIONS = ["at least one gate is swept; windows lie below the last transition"]
CASES = {"quick": 1600, "thorough": 40000}
REQUIRED = {"signal_wellformed": 200, "occupations_wellformed": 100, "labels_wellformed": 100, "sensor_labels_wellformed": 50}


def shape(res):
    res = [int(x) for x in np.atleast_1d(res)]
    return (res[0],) if len(res) == 1 else (res[1], res[0])


def one_jump(sim):
    """Keep only the first dot jump distortion: several of them regenerate 1D scans pixel by pixel, recursively."""
    seen, keep = 0, []
    for d in sim.occupation_distortions or []:
        jump = type(d).__name__ == "OccupationDotJumps"
        if not (jump and seen):
            keep.append(d)
        seen += jump
    sim.occupation_distortions = keep or None


def run_case(m, rng, i):
    big = rng.random() < 0.15
    exact = rng.random() < 0.03     # without look-up table (slow)
    size = (4, 10) if exact else (2, 12) if rng.random() < 0.25 else (12, 90) if big else (12, 45)
    s = Setup(rng, occ=None, pot=None, resp=None, res=size, rise=rng.random() < 0.5, lut=None if exact else True)
    if rng.random() < 0.5:
        s.limits = (s.w1, s.w2 if rng.random() < 0.5 else list(s.w2), None, None)
    sim = s.sim()
    for _ in range(2):
        do_scan = s.kind == "scan" and rng.random() < 0.5
        if do_scan:
            if s.limits[0] is not None and rng.random() < 0.5:
                sim.volt_limits_sensor_g1, sim.volt_limits_sensor_g2 = [
                    v if x is None else np.array([min(v[0], x), max(v[1], x)]) for v, x in ((s.sw1, s.s1), (s.sw2, s.s2))]
            kw = s.scan_request()
            if rng.random() < 0.1:
                kw["resolution"] = int(rng.integers(2, 6))
            kw["resolution"] = gen.res_format(rng, kw["resolution"])
            if rng.random() < 0.15 and sim.volt_limits_sensor_g1 is None and sim.volt_limits_sensor_g2 is None:
                # far away: barriers that are completely closed or completely open
                for k in ("sweep_range_sensor_g1", "sweep_range_sensor_g2"):
                    kw[k] = kw[k] + np.ptp(np.concatenate([s.sw1, s.sw2])) * 10.0 ** gen.u(rng, 0, 4) * (-1 if rng.random() < 0.8 else 1)
                m.event("far_window")
            out = sim.measure_sensor_scan(**kw)
            what = "sensor scan"
        else:
            two = rng.random() < 0.5
            if not two and s.limits[0] is not None:
                sim.volt_limits_g1 = sim.volt_limits_g2 = None
            kw, kind = s.request(two_d=two, n=int(rng.integers(2, 8)) if rng.random() < 0.15 else None)
            if not two:
                one_jump(sim)
            kw["resolution"] = gen.res_format(rng, kw["resolution"])
            out = sim.measure(**kw)
            what = "plunger scan"
        w = dict(config=s.describe(), request=kw)
        sh = shape(kw["resolution"])
        m.distinct(repr(s.describe()), repr(kw))
        m.event(what + " %dD" % len(sh))
        m.sample(**w)
        sig = out[0]
        m.check(isinstance(sig, np.ndarray) and sig.shape == sh and np.isfinite(sig).all(), "signal_wellformed",
                f"{what}: signal shape {getattr(sig, 'shape', None)} expected {sh}, finite: {np.isfinite(sig).all()}", **w)
        if do_scan:
            for k, name, top in ((1, "regime", 2), (2, "peak", len(s.sensor.sensor_peak_function or []))):
                l = out[k]
                m.check(l.shape == sh and l.dtype.kind in "iu" and l.min() >= 0 and l.max() <= top, "sensor_labels_wellformed",
                        f"{name} labels: shape {l.shape} dtype {l.dtype} range {l.min()}..{l.max()}", **w)
        else:
            occ, lab = out[1], out[2]
            m.check(occ.shape == sh + (2,) and np.isfinite(occ).all(), "occupations_wellformed",
                    f"occupations shape {occ.shape} expected {sh + (2,)}", **w)
            m.check(lab.shape == sh and np.isfinite(lab).all() and (np.asarray(lab, float) == np.rint(lab)).all()
                    and lab.min() >= 0 and lab.max() <= len(s.ikw["tct_params"]), "labels_wellformed",
                    f"labels shape {lab.shape} expected {sh}, range {lab.min()}..{lab.max()}", **w)
        m.check(isinstance(out[3], dict) and len(out) == 4, "metadata_present", "", **w)
