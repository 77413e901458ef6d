"""P31: resetting the sensor offset places the sweep start at the target."""
import copy

import numpy as np

from vmon import gen
from vmon.sims import Setup
from vmon.snap import snap

PID = "P31"
TITLE = "Resetting the sensor offset places the sweep start at the target"
RULE = ("sequences of resets on random simulations (1D and 2D sweeps, all directions, targets, previous offsets, with and without "
        "distortions) interleaved with measurements; the potential at the first pixel is read from noise-free scans; "
        "non-trivial = distinct reset")
ASSUMPTIONS = ["SensorGeneric (one sensor potential), the sensor the function is documented for",
               "windows are below the last defined transition, the sweep start is not on a transition"]
CASES = {"quick": 2500, "thorough": 80000}
REQUIRED = {"target_reached": 2000, "target_in_scan": 500, "nothing_else_changes": 2000, "repetition": 2000, "signal_shift_only": 500,
            "arguments_unmodified": 2000}


def potentials(sim, v1, v2):
    occ = sim.ideal_csd_config.get_csd_data(volt_limits_g1=v1, volt_limits_g2=v2, resolution=2)[0]
    return np.asarray(sim.sensor.sensor_potential(occ, v1, v2))


def run_case(m, rng, i):
    from simcats import Simulation
    from simcats.support_functions import reset_offset_mu_sens
    noisy = rng.random() < 0.4
    s = Setup(rng, sensor="generic", occ=None if noisy else 0, pot=None if noisy else 0, resp=None if noisy else 0, res=(5, 12))
    if rng.random() < 0.3:
        s.limits = (np.array([-1.0, 1.0]), [-1.0, 1.0], None, None)
    sim = s.sim()
    off0 = sim.sensor.offset_mu_sens
    # occupations of the pixel come from the reference diagram
    for step in range(int(rng.integers(1, 4))):
        req, kind = s.request(n=int(rng.integers(4, 12)))
        v1, v2 = req["sweep_range_g1"], req["sweep_range_g2"]
        target = float(gen.u(rng, -0.2, 0.2)) if rng.random() < 0.9 else 0.0
        if rng.random() < 0.3:
            sim.sensor.offset_mu_sens = [float(gen.u(rng, -5, 5)), int(rng.integers(-3, 3)), 0.0][rng.integers(3)]
        w = dict(config=s.describe(), sweep=[v1, v2], target=target, offset=sim.sensor.offset_mu_sens, step=step)
        if rng.random() < 0.3:
            # targets that are related to the present potentials along the sweep
            now = potentials(sim, v1, v2)
            target = float([now[0], now[-1], now.mean(), np.median(now), now[[0, -1]].mean(), sim.sensor.offset_mu_sens][rng.integers(6)])
            if rng.random() < 0.4:
                target += float(np.exp(gen.u(rng, np.log(1e-8), np.log(1e-3))) * rng.choice([-1, 1]))
            w["target"] = target
        start = np.array([v1[0], v2[0]])
        if np.abs(s.ref.margins(start)).min() < 5e-5:
            continue
        occ = sim.ideal_csd_config.get_csd_data(volt_limits_g1=v1, volt_limits_g2=v2, resolution=7)[0][0]
        keep = v1.copy(), v2.copy()
        before = copy.deepcopy(sim)
        before_snap = snap(sim)
        out = reset_offset_mu_sens(sim, target, v1, v2)
        m.check(np.array_equal(v1, keep[0]) and np.array_equal(v2, keep[1]), "arguments_unmodified", "sweep range modified", **w)
        got = float(occ @ sim.sensor.alpha_dot + start @ sim.sensor.alpha_gate + sim.sensor.offset_mu_sens)
        m.close(got, target, "target_reached", "potential at the start of the sweep", rtol=0, atol=1e-9, **w)
        m.check(out is None or isinstance(out, Simulation), "target_reached", "", **w)
        # nothing but the offset
        new = sim.sensor.offset_mu_sens
        twin = copy.deepcopy(sim)
        twin.sensor.offset_mu_sens = before.sensor.offset_mu_sens
        m.check(snap(twin) == before_snap, "nothing_else_changes", "more than the sensor offset changed", **w)
        m.check(np.ndim(new) == 0 and isinstance(new, (int, float)), "offset_type", f"{type(new)}", **w)
        reset_offset_mu_sens(sim, target, v1, v2)
        m.close(sim.sensor.offset_mu_sens, new, "repetition", "repeating the reset changes the offset", rtol=0, atol=1e-12 * 50, **w)
        # the number of the previous offset does not matter
        other = copy.deepcopy(sim)
        other.sensor.offset_mu_sens = float(gen.u(rng, -1, 1))
        reset_offset_mu_sens(other, target, v1, v2)
        m.close(other.sensor.offset_mu_sens, new, "previous_offset_irrelevant", "depends on the previous offset", rtol=0, atol=1e-9, **w)
        # noise-free scans without peaks report the potential
        flat = copy.deepcopy(sim)
        flat.occupation_distortions = flat.sensor_potential_distortions = flat.sensor_response_distortions = None
        flat.sensor.sensor_peak_function = None
        if kind == "2d":
            # pixel lines have a width: the corner has to be further away from the transitions than a pixel
            res = np.array(s.res)
            pitch = np.hypot(abs(v1[1] - v1[0]) / (res[0] - 1), abs(v2[1] - v2[0]) / (res[1] - 1))
            if np.abs(s.ref.margins(start)).min() > 2 * pitch:
                m.close(flat.measure(v1, v2, resolution=res)[0][0, 0], target, "target_in_scan", "first pixel of the 2D scan", rtol=0, atol=1e-6 + 1e-3 * np.abs(sim.sensor.alpha_dot).sum(), **w)
        else:
            m.close(flat.measure(v1, v2, resolution=9)[0][0], target, "target_in_scan", "first sample of the 1D scan", rtol=0, atol=1e-9, **w)
            old = copy.deepcopy(before)
            old.occupation_distortions = old.sensor_potential_distortions = old.sensor_response_distortions = None
            old.sensor.sensor_peak_function = None
            d = flat.measure(v1, v2, resolution=9)[0] - old.measure(v1, v2, resolution=9)[0]
            m.close(d, np.full(9, new - before.sensor.offset_mu_sens), "signal_shift_only", "potentials are not shifted uniformly", rtol=0, atol=1e-9, **w)
        m.event("sweep_" + kind)
        m.distinct(repr(w))
        m.sample(**w)
