"""P01: requests outside limits or malformed are rejected (ValueError, nothing run, nothing changed), others accepted."""
import numpy as np

from vmon import gen, probes
from vmon.core import digest

PID = "P01"
TITLE = "Requests outside limits or malformed are rejected, others accepted"
RULE = ("random limits (None, touching, one ulp inside/outside), ranges, directions, resolutions, formats and optional voltages "
        "of both measurement kinds; non-trivial = the acceptance of the request depends on at least one configured limit or "
        "on a malformed part")
ASSUMPTIONS = ["acceptance is defined by an independent predicate over limits and request", "voltages and limits are finite numbers"]
CASES = {"quick": 2400, "thorough": 30000}
REQUIRED = {"accepted_valid": 100, "rejected_invalid": 100, "nothing_run_on_rejection": 100, "diagram_rejected": 60, "unchanged_on_rejection": 100}


def rnd_limits(rng):
    if rng.random() < 0.25:
        return None
    k = rng.integers(8)
    lo = float(gen.u(rng, -0.3, -0.05))
    hi = lo + float(gen.u(rng, 0.02, 0.2))
    if k == 0:      # a bound of exactly zero, or limits around zero, with huge, tiny or integer values
        lo, hi = [(0.0, hi - lo), (lo, 0.0), (lo, -lo), (-1, 1), (0, 2), (lo * 1e-6, -lo * 1e-6), (lo * 1e4, 5)][rng.integers(7)]
    return [np.array([lo, hi]), [lo, hi]][rng.integers(2)]


def inside(rng, lim):
    """A voltage inside of the limits, sometimes exactly a bound."""
    if lim is None:
        return 0.0 if rng.random() < 0.1 else float(gen.u(rng, -1, 1))
    k = rng.integers(6)
    if k == 2 and lim[0] <= 0 <= lim[1]:
        return [0.0, 0, -0.0][rng.integers(3)]
    return float(lim[0]) if k == 0 else float(lim[1]) if k == 1 else float(gen.u(rng, lim[0], lim[1]))


def outside(rng, lim):
    k = rng.integers(5)
    if k == 4:
        if not lim[0] <= 0 <= lim[1]:
            return [0.0, 0, -0.0][rng.integers(3)]
        k = rng.integers(4)
    if k == 0:
        return float(np.nextafter(lim[0], -9))
    if k == 1:
        return float(np.nextafter(lim[1], 9))
    return float(lim[0] - gen.u(rng, 1e-6, 0.2)) if k == 2 else float(lim[1] + gen.u(rng, 1e-6, 0.2))


def rnd_range(rng, lim, allow_fixed):
    a, b = inside(rng, lim), inside(rng, lim)
    if a == b and not allow_fixed:
        b = a + 0.01 if lim is None else (lim[0] if a != lim[0] else lim[1])
    if allow_fixed and rng.random() < 0.3:
        b = a
    return [float(a), float(b)]


def fmt(rng, r):
    return [np.array(r), list(r), tuple(r)][rng.integers(3)]


def diagram(m, rng):
    """The ideal diagram, requested directly."""
    from simcats.ideal_csd.geometric import ideal_csd_geometric
    kw = gen.ideal_kwargs(rng)
    two_d = rng.random() < 0.6
    ranges = [rnd_range(rng, [-0.05, -0.01], not two_d) for _ in range(2)]
    if not two_d and ranges[0][0] == ranges[0][1]:
        ranges[1] = [-0.04, -0.02]
    res = [int(x) for x in rng.integers(2, 7, 2)] if two_d else [int(rng.integers(2, 9))]
    fault = str(rng.choice(["none", "long", "reslen", "res1", "fixed2d"]))
    if fault == "long":
        k = int(rng.integers(2))
        ranges[k] = ranges[k] + [ranges[k][0] + 0.001]
    elif fault == "reslen":
        res = [3, 4, int(rng.integers(1, 4))]
        ranges = [[-0.05, -0.01], [-0.04, -0.02]]
    elif fault == "res1" and two_d:
        res[int(rng.integers(2))] = int(rng.choice([1, 1, 0, -3]))
    elif fault == "fixed2d" and two_d:
        k = int(rng.integers(2))
        ranges[k][1] = ranges[k][0]
    else:
        fault = "none"
    r1, r2, rf = np.array(ranges[0]), np.array(ranges[1]), np.array(res) if len(res) > 1 else res[0]
    w = dict(ranges=ranges, resolution=res, fault=fault)
    err = None
    try:
        if rng.random() < 0.5:
            gen.ideal(kw).get_csd_data(r1, r2, rf)
        else:
            ideal_csd_geometric(kw["tct_params"], r1, r2, rf, kw["rotation"], kw.get("lut_entries"))
    except Exception as e:
        err = e
    if fault == "none":
        # windows above the last transition have no diagram (IndexError)
        m.check(err is None or isinstance(err, IndexError), "accepted_valid", f"valid diagram refused: {err!r}", **w)
    else:
        m.check(isinstance(err, ValueError), "diagram_rejected", "malformed request for a diagram "
                + ("performed" if err is None else f"ended in {err!r}"), **w)
    m.distinct(repr(w))


def run_case(m, rng, i):
    from simcats import Simulation
    if i % 12 == 5:
        return diagram(m, rng)
    lims = [rnd_limits(rng) for _ in range(4)]
    if rng.random() < 0.2:
        lims[2] = lims[3] = None
    scan_kind = rng.random() < 0.45
    sensor_ok = True
    csd_ok = True
    kw, w1, w2 = gen.scan_sensor_parts(rng)
    if scan_kind or rng.random() < 0.6:
        sensor = probes.ProbeScan(**kw)
    else:
        sensor = probes.ProbeGeneric(**gen.generic_params(rng))
    has_csd = rng.random() < 0.9
    sim = Simulation(volt_limits_g1=lims[0], volt_limits_g2=lims[1], volt_limits_sensor_g1=lims[2],
                     volt_limits_sensor_g2=lims[3], ideal_csd_config=probes.ProbeCSD() if has_csd else None, sensor=sensor)
    before = repr(sim)
    two_d = rng.random() < 0.5
    sw = (2, 3) if scan_kind else (0, 1)      # swept gates
    fx = (0, 1) if scan_kind else (2, 3)      # gates at (optional) fixed voltage
    ranges = [rnd_range(rng, lims[k], not two_d) for k in sw]
    if scan_kind and not two_d and ranges[0][0] == ranges[0][1] and ranges[1][0] == ranges[1][1]:
        ranges[0][1] = ranges[0][1] if lims[2] is not None else ranges[0][0] + 0.1
    given = rng.random() < 0.6
    volts = [inside(rng, lims[k]) if given else None for k in fx]
    res = [int(x) for x in rng.integers(2, 7, 2)] if two_d else [int(rng.integers(2, 9))]
    # inject up to two faults
    faults = []
    for _ in range(int(rng.choice([0, 1, 1, 1, 2]))):
        f = str(rng.choice(["swept", "swept", "swept", "fixedv", "fixedv", "len", "reslen", "res1", "fixed2d", "one_volt",
                            "no_csd", "sensor"]))
        if f == "swept":
            k = int(rng.integers(2))
            if lims[sw[k]] is not None and len(ranges[k]) == 2:
                ranges[k][int(rng.integers(2))] = outside(rng, lims[sw[k]])
                faults.append(f + str(k))
        elif f == "fixedv":
            k = int(rng.integers(2))
            if lims[fx[k]] is not None and volts[k] is not None:
                volts[k] = outside(rng, lims[fx[k]])
                faults.append(f + str(k))
        elif f == "len":
            k = int(rng.integers(2))
            ranges[k] = [ranges[k][:1], ranges[k] + [ranges[k][0]]][rng.integers(2)]
            faults.append(f)
        elif f == "reslen":
            res = [3, 4, int(rng.integers(1, 4))]
            faults.append(f)
        elif f == "res1" and two_d and len(res) == 2:
            res[int(rng.integers(2))] = int(rng.choice([1, 1, 0, -3]))
            faults.append(f)
        elif f == "fixed2d" and two_d:
            k = int(rng.integers(2))
            if len(ranges[k]) == 2 and not any(x.startswith("swept") for x in faults):
                ranges[k][1] = ranges[k][0]
                faults.append(f)
        elif f == "one_volt" and given and "one_volt" not in faults:
            volts[int(rng.integers(2))] = None
            faults.append(f)
        elif f == "no_csd" and not scan_kind and has_csd:
            sim = Simulation(volt_limits_g1=lims[0], volt_limits_g2=lims[1], volt_limits_sensor_g1=lims[2],
                             volt_limits_sensor_g2=lims[3], sensor=sensor)
            before = repr(sim)
            has_csd = False
        elif f == "sensor" and scan_kind:
            sim.sensor = probes.ProbeSensor() if rng.random() < 0.5 else probes.ProbeGeneric()
            before = repr(sim)
            sensor_ok = False
    # independent predicate
    def within(v, lim):
        return lim is None or (lim[0] <= v <= lim[1])
    ok = all(len(r) == 2 for r in ranges)
    ok = ok and all(within(v, lims[sw[k]]) for k in range(2) for v in ranges[k])
    ok = ok and all(v is None or within(v, lims[fx[k]]) for k, v in enumerate(volts))
    ok = ok and (volts[0] is None) == (volts[1] is None)
    ok = ok and len(res) <= 2
    if len(res) == 2:
        ok = ok and all(x > 1 for x in res) and all(r[0] != r[-1] for r in ranges)
    ok = ok and (sensor_ok if scan_kind else has_csd)
    r1, r2 = fmt(rng, ranges[0]), fmt(rng, ranges[1])
    if scan_kind:
        r1, r2 = np.array(ranges[0]), np.array(ranges[1])
    rf = gen.res_format(rng, res) if len(res) != 3 else fmt(rng, res)
    probes.take()
    err = None
    try:
        if scan_kind:
            out = sim.measure_sensor_scan(sweep_range_sensor_g1=r1, sweep_range_sensor_g2=r2, volt_g1=volts[0], volt_g2=volts[1],
                                          resolution=rf)
        else:
            out = sim.measure(sweep_range_g1=r1, sweep_range_g2=r2, volt_sensor_g1=volts[0], volt_sensor_g2=volts[1],
                              resolution=rf)
    except Exception as e:
        err = e
    trace = probes.take()
    w = dict(limits=lims, ranges=ranges, volts=volts, resolution=rf, scan=scan_kind, faults=faults)
    m.event("accepted" if err is None else "rejected")
    for f in faults:
        m.event("fault_" + f)
    if faults or any(x is not None for x in lims):
        m.distinct(repr(w))
    m.sample(**w, accepted=err is None)
    if ok:
        m.check(err is None, "accepted_valid", f"valid request refused: {err!r}", **w)
    else:
        m.check(isinstance(err, ValueError), "rejected_invalid",
                "invalid request " + ("performed" if err is None else f"ended in {type(err).__name__}: {err}"), **w)
        if isinstance(err, ValueError):
            m.check(not trace, "nothing_run_on_rejection", f"components were run: {[t['kind'] for t in trace]}", **w)
            m.check(repr(sim) == before, "unchanged_on_rejection", "configuration changed by a rejected request", **w)
