"""P22: scan sensor potentials and series conductance follow their formulas."""
import numpy as np

from vmon import gen, ref
from vmon.scanref import ScanRef
from vmon.sims import Setup

PID = "P22"
TITLE = "Scan sensor potentials and series conductance follow their formulas"
RULE = ("random scan sensors (1-5 peaks or linear, single/multi barriers, with and without final rise, all documented parameter shapes) and "
        "random occupations and sweeps, evaluated directly and through measurements, compared to an independent model; non-trivial = "
        "distinct signal with conductive and blocked pixels")
ASSUMPTIONS = ["deformations are judged by P25"]
CASES = {"quick": 2000, "thorough": 60000}
REQUIRED = {"potentials": 1200, "series_conductance": 1200, "not_above_parts": 800, "vanishes_with_part": 600, "rise_signal": 250,
            "measured_scan": 150, "measured_plunger_scan": 100, "inputs_untouched": 1200, "response_repeatable": 1200}


def parts(rng, rise=None):
    from simcats.sensor.barrier_function import BarrierFunctionMultiGLF
    kw, v1, v2 = gen.scan_sensor_parts(rng, rise=rise, peaks_none=rng.random() < 0.1)
    k = rng.random()
    if k < 0.15:
        # gate 2 does not couple to the first barrier
        kw["alpha_sensor_gate"][1, 1] = 0.0
    if rng.random() < 0.2:
        def multi(b):
            p1 = [0.0, b.asymptote_right * 0.6, b.growth_rate, b.asymmetry, b.shape_factor, 1.0, b.offset]
            p2 = [0.0, b.asymptote_right * 0.4, b.growth_rate * 1.5, b.asymmetry, b.shape_factor, 1.0, b.offset + 0.01]
            return BarrierFunctionMultiGLF(b.pinch_off, b.fully_conductive, *p1, *p2)
        kw["barrier_functions"] = tuple(multi(b) for b in kw["barrier_functions"])
    elif rng.random() < 0.1:
        kw["barrier_functions"] = kw["barrier_functions"][0]
    if rng.random() < 0.2:
        kw["alpha_gate"] = kw["alpha_gate"][0] if rng.random() < 0.7 else None
    if rng.random() < 0.2:
        kw["alpha_dot"] = kw["alpha_dot"][0] if rng.random() < 0.7 else None
    if rng.random() < 0.2:
        kw["offset_mu_sens"] = float(kw["offset_mu_sens"][0])
    return kw, v1, v2


def run_case(m, rng, i):
    if i % 6 == 4:
        measured(m, rng)
    elif i % 6 == 5:
        measured_plunger(m, rng)
    else:
        direct(m, rng)


def direct(m, rng):
    from simcats.sensor import SensorScanSensorGeneric
    kw, v1, v2 = parts(rng)
    r = ScanRef(kw)
    s = SensorScanSensorGeneric(**kw)
    two_d = rng.random() < 0.6
    shape = gen.shape(rng, two_d, (2, 30), (2, 200))
    sensor_sweep = rng.random() < 0.7
    if sensor_sweep:
        v1, v2 = gen.flip(rng, v1), gen.flip(rng, v2)
        if not two_d and rng.random() < 0.4:
            (v1 if rng.random() < 0.5 else v2)[:] = v1[0]
        g = [None if rng.random() < 0.15 else float(gen.u(rng, -0.2, 0.05)) for _ in (0, 1)]
        if g[0] is None or g[1] is None:
            g = [None, None]
        occ1 = rng.uniform(0, 4, 2)
        occ = np.broadcast_to(occ1, shape + (2,)).copy()
        args = (g[0], g[1], v1, v2)
        volt = np.array([x or 0.0 for x in g])
        volts = np.broadcast_to(volt, shape + (2,))
        svolts = ref.grid(v1, v2, shape[::-1] if two_d else shape[0])
    else:
        w1, w2 = gen.u(rng, -0.2, 0.05, 2), gen.u(rng, -0.2, 0.05, 2)
        if not two_d and rng.random() < 0.4:
            (w1 if rng.random() < 0.5 else w2)[:] = w1[0]
        sv = [float(gen.u(rng, *v1)), float(gen.u(rng, *v2))]
        occ = rng.uniform(0, 4, shape + (2,))
        if rng.random() < 0.5:
            occ = np.round(occ)
        args = (w1, w2, sv[0], sv[1])
        volts = ref.grid(w1, w2, shape[::-1] if two_d else shape[0])
        svolts = np.broadcast_to(np.array(sv), shape + (2,))
        occ1, volt = occ, volts
    w = dict(shape=shape, args=args, rise=kw["final_rise"], sweep="sensor" if sensor_sweep else "plunger", alpha=kw["alpha_sensor_gate"],
             alpha_gate=kw["alpha_gate"], alpha_dot=kw["alpha_dot"], offset=kw["offset_mu_sens"])
    occ = gen.layout(rng, occ, 0.4, True)
    keep = [occ.copy()] + [np.copy(a) if isinstance(a, np.ndarray) else a for a in args]
    p = s.sensor_potential(occ, *args)
    exp = r.potentials(occ, volts, svolts)
    m.close(p, exp, "potentials", "dot and barrier potentials", rtol=1e-9, atol=1e-10, **w)
    m.check(all(np.array_equal(x, y) if x is not None else y is None for x, y in zip(keep, [occ] + list(args))), "inputs_untouched", "", **w)
    pin = gen.layout(rng, np.array(p), 0.3, True)
    c = s.sensor_response(pin)
    m.check(np.array_equal(pin, np.asarray(p)), "inputs_untouched", "potentials were modified", **w)
    e, (x, y, z) = r.signal(exp, occ1, volt)
    m.close(c, e, "series_conductance", "signal", rtol=1e-7, atol=1e-10, **w)
    m.check(np.array_equal(np.asarray(s.sensor_response(pin)), np.asarray(c), equal_nan=True), "response_repeatable",
            "evaluating the same potentials again gives another signal", **w)
    if kw["sensor_peak_function"] is not None:
        c = np.asarray(c)
        tol = 1e-9 + 1e-7 * np.abs(x)
        m.check((c <= x + tol).all() and (c <= y + tol).all() and (c <= z + tol).all() and (c >= -1e-12).all(), "not_above_parts",
                "the series conductance exceeds one of its parts or is negative", **w)
        # one vanishing part
        q = np.array(p)
        for k in (1, 2):
            qq = q.copy()
            qq[k] -= 1e4
            cc = np.asarray(s.sensor_response(qq))
            m.check((np.abs(cc) < 1e-12).all(), "vanishes_with_part", f"signal {np.abs(cc).max()} although barrier {k} is closed", **w)
    if kw["final_rise"] is not None:
        on = r.rise_value(exp[0], occ1, volt) > r.dot_value(exp[0])
        m.event("pixels_on_the_final_rise_" + w["sweep"], int(on.sum()))
        m.fired["rise_signal"] = m.fired.get("rise_signal", 0) + 1
    # elementwise: a subset of the potentials gives the subset of the signal
    m.event("pixels", int(np.asarray(c).size))
    m.distinct(np.asarray(c))
    m.sample(**w)


def measured(m, rng):
    s = Setup(rng, sensor="scan", res=(8, 20))
    kw, v1, v2 = parts(rng)
    from simcats.sensor import SensorScanSensorGeneric
    r = ScanRef(kw)
    s.sensor, s.sw1, s.sw2 = SensorScanSensorGeneric(**kw), v1, v2
    q = s.scan_request()
    sim = s.sim(ideal_csd_config=gen.ideal(s.ikw))
    c = sim.measure_sensor_scan(**q)[0]
    occ = np.zeros(2)
    if q["volt_g1"] is not None:
        # a single point of the diagram, asked for independently
        occ = gen.ideal(s.ikw).get_csd_data(np.array([q["volt_g1"]] * 2), np.array([q["volt_g2"]] * 2), 2)[0][0]
    volt = np.array([q["volt_g1"] or 0.0, q["volt_g2"] or 0.0])
    g = ref.grid(q["sweep_range_sensor_g1"], q["sweep_range_sensor_g2"], q["resolution"])
    p = r.potentials(np.broadcast_to(occ, g.shape), np.broadcast_to(volt, g.shape), g)
    m.close(c, r.signal(p, occ, volt)[0], "measured_scan", "measured sensor scan", rtol=1e-7, atol=1e-10, request=q, config=s.describe())
    if kw["final_rise"] is not None:
        m.fired["rise_signal"] = m.fired.get("rise_signal", 0) + 1
    m.distinct(c)


def measured_plunger(m, rng):
    s = Setup(rng, sensor="scan", res=(8, 30))
    kw, v1, v2 = parts(rng)
    from simcats.sensor import SensorScanSensorGeneric
    r = ScanRef(kw)
    s.sensor = SensorScanSensorGeneric(**kw)
    s.s1, s.s2 = (float(gen.u(rng, *v1)), float(gen.u(rng, *v2))) if rng.random() < 0.9 else (None, None)
    q, kind = s.request()
    c, occ, lab, _ = s.sim().measure(**q)
    g = ref.grid(q["sweep_range_g1"], q["sweep_range_g2"], q["resolution"])
    sv = np.array([s.s1 or 0.0, s.s2 or 0.0])
    p = r.potentials(occ, g, np.broadcast_to(sv, g.shape))
    m.close(c, r.signal(p, occ, g)[0], "measured_plunger_scan", "measured plunger scan", rtol=1e-7, atol=1e-10, request=q, config=s.describe())
    m.distinct(c)
