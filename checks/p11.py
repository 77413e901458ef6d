"""P11: metadata is a faithful snapshot of the measurement."""
import copy

import numpy as np

from vmon import gen
from vmon.sims import Setup
from vmon.snap import public, scramble, snap

PID = "P11"
TITLE = "Metadata is a faithful snapshot of the measurement"
RULE = ("random configurations and requests; the metadata of every measurement of a history (measurements, reconfiguration, changed "
        "arguments, changed metadata) is compared with the state recorded at that measurement; non-trivial = distinct metadata")
ASSUMPTIONS = []
CASES = {"quick": 700, "thorough": 30000}
REQUIRED = {"request_recorded": 500, "components_recorded": 500, "unchanged_later": 500, "simulation_unaffected": 300, "rebuild": 200}

COMP = ("ideal_csd_config", "sensor", "occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions")
LIM = ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2")


def equal(a, b):
    return snap(a) == snap(b)


def run_case(m, rng, i):
    from simcats import Simulation
    noisy = rng.random() < 0.5
    kind = "generic" if rng.random() < 0.5 else "scan"
    s = Setup(rng, sensor=kind, occ=None if noisy else 0, pot=None if noisy else 0, resp=None if noisy else 0, res=(8, 25))
    if s.kind == "scan" and s.s1 is None:
        s.s1, s.s2 = float(gen.u(rng, *s.sw1)), float(gen.u(rng, *s.sw2))
    if rng.random() < 0.5:
        one = lambda lo, hi: [np.array([-1.0, 1.0]) * gen.u(rng, lo, hi, 2), [-float(gen.u(rng, lo, hi)), float(gen.u(rng, lo, hi))],
                              np.array([float(rng.integers(-9, -2)), float(rng.integers(8, 20))]), None][int(rng.integers(4))]
        s.limits = (one(1, 2), one(1, 2), one(8, 20), one(8, 20))
    sim = s.sim()
    records = []
    for step in range(3):
        scan = s.kind == "scan" and rng.random() < 0.5
        if scan:
            kw = s.scan_request(hi=15)
            run = sim.measure_sensor_scan
        else:
            kw, _ = s.request(two_d=True if noisy and rng.random() < 0.8 else None, n=int(rng.integers(5, 15)))
            run = sim.measure
        kw["resolution"] = gen.res_format(rng, kw["resolution"])
        before = copy.deepcopy(kw)
        pre = {k: public(getattr(sim, k)) for k in ("ideal_csd_config", "sensor") + LIM}
        out = run(**kw)
        md = out[3]
        w = dict(config=s.describe(), request=before, scan=scan)
        names = list(before) + (["volt_sensor_g1", "volt_sensor_g2"] if not scan and "volt_sensor_g1" not in before else [])
        for k in names:
            m.check(k in md and equal(md[k], before.get(k)), "request_recorded", f"{k}: recorded {md.get(k)!r}, supplied {before.get(k)!r}", **w)
        m.check(set(md) == set(names) | set(COMP) | set(LIM), "keys", f"{sorted(md)}", **w)
        for k in LIM + ("ideal_csd_config", "sensor"):
            m.check(k in md and public(md[k]) == pre[k], "components_recorded", f"{k} recorded {md.get(k)!r}", **w)
        for k in COMP[2:]:
            m.check(k in md and public(md[k]) == public(getattr(sim, k)), "components_recorded", f"{k} recorded {md.get(k)!r}, was {getattr(sim, k)!r}", **w)
        for k in COMP:
            m.check(md[k] is None or md[k] is not getattr(sim, k), "is_copy", f"metadata {k} is the simulation's own object", **w)
        records.append((md, snap({k: v for k, v in md.items()}), out, copy.deepcopy(out[:3]), before, scan, noisy, w))
        if step == 0 and not noisy:
            rebuilt = Simulation(**{k: md[k] for k in COMP + LIM})
            o2 = (rebuilt.measure_sensor_scan if scan else rebuilt.measure)(**{k: md[k] for k in before})
            m.check(all(np.allclose(a, b, rtol=1e-12, atol=0) for a, b in zip(out[:3], o2[:3])), "rebuild", "simulation rebuilt from metadata differs", **w)
        # something happens afterwards
        k = int(rng.integers(4))
        if k == 0:
            scramble(kw, rng)
            m.event("arguments_changed")
        elif k == 1:
            sim.sensor.offset_mu_sens = gen.u(rng, 0, 1, 3) if s.kind == "scan" else float(gen.u(rng, 0, 1))
            m.event("sensor_changed")
        elif k == 2:
            sim.ideal_csd_config = gen.ideal(dict(s.ikw, cdf_gamma_factor=float(gen.u(rng, 2, 8))))
            sim.occupation_distortions = gen.occ_distortions(rng, s.span, n=2, kinds=("blur", "fermi"))
            m.event("components_replaced")
        else:
            sim.volt_limits_g1 = np.array([-2.0, 2.0])
            if isinstance(sim.volt_limits_g2, (list, np.ndarray)):
                sim.volt_limits_g2[0] = -3.0
            m.event("limits_changed")
        for j, (md_, sn, out_, copy_, *_x) in enumerate(records):
            m.check(snap(md_) == sn, "unchanged_later", f"metadata of measurement {j} changed after operation {k}", **w)
            m.check(all(np.array_equal(a, b) for a, b in zip(out_[:3], copy_)), "results_unchanged_later",
                    f"result arrays of measurement {j} changed after operation {k}", **w)
    # changing the metadata does not influence the simulation
    if not noisy:
        md, _, out, _, before, scan, _, w = records[-1]
        run = sim.measure_sensor_scan if scan else sim.measure
        a = run(**before)[:3]
        for rec in records:
            scramble(rec[0], rng)
        b = run(**before)[:3]
        m.check(all(np.array_equal(x, y) for x, y in zip(a, b)), "simulation_unaffected", "changing metadata changed the next measurement", **w)
    else:
        pub = {k: public(getattr(sim, k)) for k in COMP + LIM}
        scramble(records[-1][0], rng)
        m.check({k: public(getattr(sim, k)) for k in COMP + LIM} == pub, "simulation_unaffected", "changing metadata changed the simulation", **w)
    m.distinct(records[-1][1])
    m.sample(**w)
