"""P12: a simulation is isolated from objects supplied to it and returned by it."""
import copy

import numpy as np

from vmon import gen
from vmon.sims import Setup
from vmon.snap import scramble, snap

PID = "P12"
TITLE = "A simulation is isolated from objects supplied to it and returned by it"
RULE = ("random configurations (constructor and setters), aliased and later scrambled components, lists and arrays, scrambled "
        "results; every supplied object is compared before/after, every scan is compared with a pristine twin; non-trivial = "
        "distinct configuration and request")
ASSUMPTIONS = ["objects obtained from the simulation's getters are live by documentation and not part of the claim",
               "isolation of single components that are used without a simulation is not part of the claim"]
CASES = {"quick": 700, "thorough": 30000}
REQUIRED = {"arguments_unmodified": 500, "components_unmodified": 500, "scrambled_components": 300, "scrambled_results": 300, "other_requests": 700}


def run_req(sim, scan, kw):
    return (sim.measure_sensor_scan if scan else sim.measure)(**kw)


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a[:3], b[:3]))


def run_case(m, rng, i):
    from simcats import Simulation
    noisy = rng.random() < 0.5
    s = Setup(rng, occ=None if noisy else 0, pot=None if noisy else 0, resp=None if noisy else 0, res=(8, 25))
    if rng.random() < 0.5:
        s.limits = (np.array([-1.0, 1.0]), [-1.0, 1.0], np.array([-9.0, 9.0]), [-9.0, 9.0])
    args = dict(volt_limits_g1=s.limits[0], volt_limits_g2=s.limits[1], volt_limits_sensor_g1=s.limits[2],
                volt_limits_sensor_g2=s.limits[3], ideal_csd_config=gen.ideal(s.ikw), sensor=s.sensor,
                occupation_distortions=s.occ, sensor_potential_distortions=s.pot, sensor_response_distortions=s.resp)
    twin_args = copy.deepcopy(args)
    sn = snap(args)
    if rng.random() < 0.5:
        sim = Simulation(**args)
        how = "constructor"
    else:
        sim = Simulation(volt_limits_g1=None)
        for k in rng.permutation(list(args)):
            setattr(sim, k, args[k])
        how = "setters"
    twin = Simulation(**twin_args)
    scan = s.kind == "scan" and rng.random() < 0.5
    if scan:
        kw = s.scan_request(hi=15)
    else:
        kw, _ = s.request(two_d=True if noisy else None, n=int(rng.integers(5, 15)))
    kw["resolution"] = gen.res_format(rng, kw["resolution"])
    w = dict(config=s.describe(), request=copy.deepcopy(kw), scan=scan, how=how)
    kw_s = snap(kw)
    a0 = run_req(sim, scan, kw)
    b0 = run_req(twin, scan, copy.deepcopy(kw))
    m.check(snap(kw) == kw_s, "arguments_unmodified", "a measurement argument was modified", **w)
    m.check(snap(args) == sn, "components_unmodified", "a supplied component, list or array was modified", **w)
    m.check(same(a0, b0), "twin_equal", "two equally configured simulations differ", **w)
    # settings of the simulation's sensor assigned later are supplied objects, too
    if rng.random() < 0.5:
        k = ["sensor_peak_function", "alpha_dot", "alpha_gate"] + (["alpha_sensor_gate", "offset_mu_sens", "barrier_functions", "final_rise"]
                                                                    if s.kind == "scan" else [])
        for n in k:
            v = copy.deepcopy(getattr(sim.sensor, n))
            if v is None:
                continue
            if isinstance(v, np.ndarray):
                v = v.astype(float)
            setattr(twin.sensor, n, copy.deepcopy(v))
            args[n] = v
            setattr(sim.sensor, n, v)
        m.event("sensor_settings_assigned")
    # scramble everything that was supplied: simulation behaves like its twin
    keep = copy.deepcopy(kw)
    scramble(args, rng)
    scramble(kw, rng)
    a1 = run_req(sim, scan, copy.deepcopy(keep))
    b1 = run_req(twin, scan, copy.deepcopy(keep))
    m.check(same(a1, b1), "scrambled_components", "changing supplied objects changed the simulation", **w)
    # scramble the returned arrays and metadata
    for x in a0[:3] + a1[:3]:
        if isinstance(x, np.ndarray):
            try:
                x[...] = 77
            except ValueError:
                pass
    scramble(a0[3], rng)
    a2 = run_req(sim, scan, copy.deepcopy(keep))
    b2 = run_req(twin, scan, copy.deepcopy(keep))
    m.check(same(a2, b2), "scrambled_results", "changing returned arrays changed the simulation", **w)
    # neither do other kinds of measurements notice anything
    for sc in ([True, True] if s.kind == "scan" else []) + [False]:
        if sc:
            q = s.scan_request(two_d=bool(rng.integers(2)), hi=12)
        else:
            q, _ = s.request(two_d=bool(rng.integers(2)), n=int(rng.integers(5, 12)))
        m.check(same(run_req(sim, sc, copy.deepcopy(q)), run_req(twin, sc, copy.deepcopy(q))), "other_requests",
                "changing supplied or returned objects changed the simulation", other=q, other_scan=sc, **w)
    # returned arrays do not alias each other's memory
    m.check(not any(np.shares_memory(a2[p], a1[q]) for p in range(3) for q in range(3)), "no_shared_memory", "results of two measurements share memory", **w)
    m.distinct(repr(w["config"]), repr(keep))
    m.sample(**w)
