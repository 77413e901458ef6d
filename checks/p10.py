"""P10: sensor scan stages are composed in the documented order."""
import copy

import numpy as np

from checks.p09 import judge_distortions, probe_stack, same, some, volts
from vmon import gen, probes, ref

PID = "P10"
TITLE = "Sensor scan stages are composed in the documented order"
RULE = ("random stacks of probe distortions, scan sensors, plunger voltages (also none, also without a charge diagram) and requests; "
        "the recorded call trace is judged online; non-trivial = distinct stack and request")
ASSUMPTIONS = ["scan sensors without final rise and deformations (their response is then a function of the potentials alone)"]
CASES = {"quick": 3000, "thorough": 150000}
REQUIRED = {"constant_occupation": 1000, "labels_from_undistorted": 1000, "potential_distortions": 1000, "response_distortions": 1000,
            "occupation_distortions_unused": 1000, "returned_signal": 1000, "occupation_of_voltages": 500}


def run_case(m, rng, i):
    from simcats import Simulation
    occ, pot, resp = probe_stack(rng)
    kw, sw1, sw2 = gen.scan_sensor_parts(rng, rise=False)
    sensor = probes.ProbeScan(**kw)
    has_csd = rng.random() < 0.8
    csd = probes.ProbeCSD(k=tuple(gen.u(rng, 0.5, 5, 4)), flat=gen.flat(rng))
    two = rng.random() < 0.5
    res = gen.resolution(rng, two, (2, 14), (2, 30))
    a, b = gen.flip(rng, sw1), gen.flip(rng, sw2)
    if not two and rng.random() < 0.5:
        (a if rng.random() < 0.5 else b)[:] = gen.u(rng, *np.sort(a))
    v1 = v2 = None
    if rng.random() < 0.8:
        v1, v2 = float(gen.u(rng, -0.2, 0.1)), float(gen.u(rng, -0.2, 0.1))
        if rng.random() < 0.1:
            v1, v2 = 0, 0.0
        elif rng.random() < 0.1:
            v2 = 0.0
    req = dict(sweep_range_sensor_g1=a, sweep_range_sensor_g2=b, volt_g1=v1, volt_g2=v2, resolution=gen.res_format(rng, res))
    sim = Simulation(volt_limits_g1=None, volt_limits_g2=None, ideal_csd_config=csd if has_csd else None, sensor=sensor,
                     occupation_distortions=some(rng, occ), sensor_potential_distortions=some(rng, pot),
                     sensor_response_distortions=some(rng, resp))
    w = dict(request=req, csd=has_csd, occ=[d.name for d in occ], pot=[d.name for d in pot], resp=[d.name for d in resp])
    sh = (res[1], res[0]) if two else (res,)
    for rep in range(2):
        probes.take()
        sig, regime, peak, _ = sim.measure_sensor_scan(**req)
        ev = probes.take()
        m.event("calls", len(ev))
        if has_csd and v1 is not None:
            o1, _ = csd.values(np.array([float(v1)]), np.array([float(v2)]))
            occv = np.broadcast_to(o1[0], sh + (2,))
            m.event("with_occupation")
        else:
            occv = np.zeros(sh + (2,))
        p = [e for e in ev if e["kind"] == "potential"]
        ok = len(p) >= 1 and all(same(e["occ"], occv) for e in p)
        m.check(ok, "constant_occupation", "sensor potential was not calculated with the constant occupation of the plunger voltages", **w)
        if has_csd and v1 is not None:
            m.check(ok, "occupation_of_voltages", f"expected {occv.reshape(-1, 2)[0]}", **w)
        m.check(all(volts(e["s1"], a) and volts(e["s2"], b) and volts(e["g1"], v1) and volts(e["g2"], v2) for e in p), "potential_voltages",
                f"{[(e['g1'], e['g2'], e['s1'], e['s2']) for e in p][:1]}", **w)
        m.check(not any(e["kind"] == "occ" for e in ev), "occupation_distortions_unused", "occupation distortions were applied", **w)
        twin = copy.deepcopy(sensor)
        mu = twin.sensor_potential(occv, v1, v2, a, b)
        lab = [e for e in ev if e["kind"] == "labels"]
        m.check(len(lab) >= 1 and all(same(e["pot"], mu) and volts(e["s1"], a) and volts(e["s2"], b) and volts(e["g1"], v1)
                                      and volts(e["g2"], v2) for e in lab), "labels_from_undistorted",
                f"labels requested {len(lab)} times, not (only) for the undistorted potentials", **w)
        r1, k1 = copy.deepcopy(twin).get_sensor_scan_labels(v1, v2, a, b, mu)
        m.check(np.array_equal(regime, r1) and np.array_equal(peak, k1), "returned_labels", "returned labels are not the sensor's labels", **w)
        outs = judge_distortions(m, ev, "pot", pot, list(mu), a, b, "potential_distortions", **w)
        mu_d = np.array(outs)
        r = [e for e in ev if e["kind"] == "response"]
        m.check(len(r) >= 1 and all(same(e["x"], mu_d) for e in r), "response_stage", "sensor response did not receive the distorted potentials", **w)
        resp_in = twin.sensor_response(mu_d)
        probes.take()
        outs = judge_distortions(m, ev, "resp", resp, [resp_in], a, b, "response_distortions", **w)
        m.check(same(sig, outs[0]), "returned_signal", "returned signal is not the output of the last response distortion", **w)
    m.distinct(sig, peak)
    m.sample(**w)
