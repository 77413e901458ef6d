"""P13: noise-free measurements do not depend on history."""
import copy

import numpy as np

import simcats  # noqa  (imported before the workers and their pristine helpers are forked)
from vmon import gen, zygote
from vmon.sims import Setup

PID = "P13"
TITLE = "Noise-free measurements do not depend on history"
RULE = ("random histories of 10-18 operations (plunger scans, sensor scans, rejected requests, requests failing inside of a component, "
        "component replacement and restoration, changes of single parameters of the components in use) on two simulations used in turns; "
        "every result is compared with what a process that never used the library computes for the same configuration and request; "
        "non-trivial = distinct (configuration, request) pair measured in a history")
ASSUMPTIONS = ["values are compared with a relative tolerance of 1e-10"]
CASES = {"quick": 700, "thorough": 25000}
REQUIRED = {"same_as_fresh": 2000, "rejected_keeps": 100, "after_replacement": 300, "after_change": 300, "setters_equal_constructor": 100}


def measure(sim, req):
    return (sim.measure_sensor_scan if req[0] else sim.measure)(**copy.deepcopy(req[1]))[:3]


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return all(np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-10, atol=1e-13) for x, y in zip(a, b))


def pristine(ikw, sensor, occ, req):
    """Result of the request in a fresh simulation (executed in a process that never used the library)."""
    sim = simcats.Simulation(volt_limits_g1=np.array([-3.0, 3.0]), volt_limits_g2=None, ideal_csd_config=gen.ideal(ikw), sensor=sensor,
                             occupation_distortions=occ)
    return outcome(sim, req)


def outcome(sim, req):
    try:
        return measure(sim, req)
    except IndexError:
        return "IndexError"


def rand_sensor(rng, s):
    if s.kind == "generic":
        return gen.generic(rng)
    kw, a, b = gen.scan_sensor_parts(rng)
    from simcats.sensor import SensorScanSensorGeneric
    if rng.random() < 0.4 and kw["sensor_peak_function"]:
        from simcats.sensor.deformation import SensorPeakDeformationLinear
        kw["sensor_peak_deformations"] = {0: SensorPeakDeformationLinear(angle=float(gen.u(rng, 0.5, 2.5)))}
    return SensorScanSensorGeneric(**kw)


def relatives(rng, ikw):
    """Variants of the configuration that share most of its parameters."""
    out = [dict(ikw), dict(ikw, cdf_gamma_factor=float(gen.u(rng, 2, 9))),
           dict(ikw, cdf_type="cauchy" if ikw["cdf_type"] == "sigmoid" else "sigmoid")]
    for _ in range(3):
        out.append(variant(rng, ikw))
    return out


def variant(rng, ikw):
    t = [p.copy() for p in ikw["tct_params"]]
    k = int(rng.integers(6))
    d = float(gen.u(rng, 2e-4, 1e-3))
    if k == 0:              # the whole diagram shifted
        for p in t:
            p[[5, 7]] += d
    elif k == 1:
        for p in t:
            p[[4, 6]] += d - 6e-4
    elif k == 2:            # the last transitions shifted
        for p in t[int(rng.integers(len(t))):]:
            p[[5, 7]] += d
    elif k == 3:
        return dict(ikw, lut_entries=int(rng.choice([150, 300, 700, 1100])))
    elif k == 4:
        return dict(ikw, rotation=ikw["rotation"] + float(gen.u(rng, -0.01, 0.01)))
    else:                   # longer linear parts
        for p in t:
            p[int(rng.integers(2))] *= 1.01
    return dict(ikw, tct_params=t)


def change(rng, sim, ikw, sensor):
    """Change one parameter of the components in use (through the simulation) and of their models; returns (name, ikw, sensor)."""
    cfg, live = sim.ideal_csd_config, sim.sensor
    k = int(rng.integers(9))
    if k < 3:
        ikw = variant(rng, ikw)
        for name in ("tct_params", "lut_entries", "rotation"):
            setattr(cfg, name, copy.deepcopy(ikw[name]))
        return "setters of the diagram", ikw, sensor
    if k == 3:
        d = float(gen.u(rng, 2e-4, 8e-4))
        ikw = dict(ikw, tct_params=[p.copy() for p in ikw["tct_params"]])
        for p, q in zip(cfg.tct_params, ikw["tct_params"]):
            p[[5, 7]] += d
            q[[5, 7]] += d
        return "tct_params in place", ikw, sensor
    sensor = copy.deepcopy(sensor)
    if k in (4, 5):
        f = float(gen.u(rng, 0.7, 1.3))
        name = str(rng.choice(["alpha_dot", "alpha_gate"]))
        for x in (live, sensor):
            setattr(x, name, getattr(x, name) * f)
        return name, ikw, sensor
    if k == 6:
        d = float(gen.u(rng, -1e-3, 1e-3))
        for x in (live, sensor):
            x.offset_mu_sens = x.offset_mu_sens + d
        return "offset_mu_sens", ikw, sensor
    if sensor.sensor_peak_function:
        n = int(rng.integers(len(sensor.sensor_peak_function)))
        name = str(rng.choice(["mu0", "height", "width"]))
        d = float(gen.u(rng, 0.8, 1.2))
        for x in (live, sensor):
            p = x.sensor_peak_function[n]
            at = name if name != "width" else "sigma" if hasattr(p, "sigma") else "gamma"
            setattr(p, at, getattr(p, at) * d)
        return "peak " + name, ikw, sensor
    return "nothing", ikw, sensor


def run_case(m, rng, i):
    from simcats import Simulation
    zygote.start()
    s = Setup(rng, res=(8, 25))
    reqs = [(False, s.request(two_d=bool(k % 2), n=int(rng.integers(5, 20)))[0]) for k in range(3)]
    if s.kind == "scan":
        reqs += [(True, s.scan_request(hi=14)) for _ in range(3)]
    sensors = [s.sensor] + [rand_sensor(rng, s) for _ in range(2)]
    csds = relatives(rng, s.ikw)
    occs = [None, gen.occ_distortions(rng, s.span, n=1, kinds=("blur", "fermi")), []]

    def fresh(c):
        return Simulation(volt_limits_g1=np.array([-3.0, 3.0]), volt_limits_g2=None, ideal_csd_config=gen.ideal(copy.deepcopy(c[1])),
                          sensor=c[0], occupation_distortions=c[2])
    # two simulations used in turns; their models are [sensor, diagram parameters, occupation distortions]
    models = [[sensors[0], csds[0], occs[0]], [sensors[-1], csds[int(rng.integers(len(csds)))], occs[int(rng.integers(3))]]]
    sims = [fresh(c) for c in models]
    state = ["same_as_fresh", "same_as_fresh"]
    ops = []
    for step in range(int(rng.integers(10, 19))):
        t = int(rng.random() < 0.3)
        sim, c = sims[t], models[t]
        k = rng.random()
        if k < 0.5:
            r = int(rng.integers(len(reqs)))
            got = outcome(sim, reqs[r])
            ops.append((t, "measure", r))
            ok, want = zygote.call(pristine, c[1], c[0], c[2], reqs[r])
            if not ok:
                m.violation("same_as_fresh", f"a fresh process fails: {want}", history=ops, config=s.describe(), request=reqs[r][1])
                return
            if state[t] != "same_as_fresh":
                m.check(same(got, want), state[t], f"result of request {r} differs from a fresh process", history=ops,
                        config=s.describe(), request=reqs[r][1])
            m.check(same(got, want), "same_as_fresh", f"result of request {r} differs from a fresh process", history=ops)
            m.event("failed_requests" if isinstance(want, str) else "compared_scans")
            m.distinct(*want)
        elif k < 0.65:
            rejected(m, rng, sim, reqs, ops)
        elif k < 0.83:
            w = int(rng.integers(3))
            if w == 0:
                c[0] = sensors[int(rng.integers(len(sensors)))]
                sim.sensor = c[0]
            elif w == 1:
                c[1] = csds[int(rng.integers(len(csds)))]
                sim.ideal_csd_config = gen.ideal(copy.deepcopy(c[1]))
            else:
                c[2] = occs[int(rng.integers(3))]
                sim.occupation_distortions = c[2]
            state[t] = "after_replacement"
            ops.append((t, "replace", w))
        else:
            name, c[1], c[0] = change(rng, sim, c[1], c[0])
            state[t] = "after_change"
            ops.append((t, "change", name))
    # configured through setters, in any order
    c = models[0]
    other = Simulation(volt_limits_g1=None)
    todo = dict(volt_limits_g1=np.array([-3.0, 3.0]), ideal_csd_config=gen.ideal(copy.deepcopy(c[1])), sensor=c[0],
                occupation_distortions=c[2], volt_limits_g2=None, sensor_potential_distortions=None, sensor_response_distortions=[])
    for k in rng.permutation(list(todo)):
        setattr(other, k, todo[k])
    r = int(rng.integers(len(reqs)))
    m.check(same(outcome(other, reqs[r]), outcome(fresh(c), reqs[r])), "setters_equal_constructor", "configuration through setters differs",
            config=s.describe(), request=reqs[r][1])
    m.event("operations", len(ops))
    m.sample(history=ops, config=s.describe())


def rejected(m, rng, sim, reqs, ops):
    kind = int(rng.integers(5))
    scan, kw = reqs[int(rng.integers(len(reqs)))]
    kw = copy.deepcopy(kw)
    if scan:
        if kind == 0:
            kw["sweep_range_sensor_g1"] = np.array([1.0, 2.0, 3.0])
        elif kind == 1:
            kw["volt_g1"], kw["volt_g2"] = 0.0, None
        elif kind == 2:
            kw["volt_g1"], kw["volt_g2"] = 5.0, 0.0
        elif kind == 3:
            kw["resolution"] = np.array([3, 3, 3])
        else:
            kw["volt_g1"], kw["volt_g2"] = 2.9, 2.9      # above the last transition: fails inside of the diagram
    else:
        if kind == 0:
            kw["sweep_range_g2"] = np.array([1.0, 2.0, 3.0])
        elif kind == 1:
            kw["sweep_range_g1"] = np.array([-5.0, 0.0])
        elif kind == 2:
            kw["resolution"] = np.array([1, 5])
        elif kind == 3:
            kw["resolution"] = np.array([3, 3, 3])
        else:
            kw["sweep_range_g1"], kw["sweep_range_g2"] = np.array([1.0, 1.5]), np.array([1.0, 1.5])
    ops.append(("rejected", scan, kind))
    try:
        measure(sim, (scan, kw))
        m.event("unexpectedly_accepted")
    except (ValueError, IndexError):
        m.check(True, "rejected_keeps")
