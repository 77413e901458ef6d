"""P25: peak deformations bend exactly the configured peaks."""
import numpy as np

from vmon import gen, ref
from vmon.scanref import ScanRef, judge_labels
from vmon.sims import Setup
from checks.p22 import parts

PID = "P25"
TITLE = "Peak deformations bend exactly the configured peaks"
RULE = ("random scan sensors with linear and circular deformations (both signs) of a random subset of the peaks, random sensor sweeps; signal "
        "and labels of every pixel compared to an independent model; non-trivial = distinct deformed signal or centre curve")
ASSUMPTIONS = ["the offset of a circular deformation is compared to the implemented one (volts subtracted from a potential: listed finding)",
               "circles of radius zero and angles of zero are not exercised"]
CASES = {"quick": 1200, "thorough": 30000}
REQUIRED = {"centre_curve": 300, "signal": 400, "configured_peaks_unchanged": 500, "vanishing": 150, "other_peaks_unaffected": 100,
            "peak_labelled": 300, "closest_pixel": 500, "plunger_scan_undeformed": 60, "measured_labels": 150, "measured_signal": 150,
            "owner": 250}


def deformation(rng, scale):
    """Random deformation; scale: extent of the dot potential over the window."""
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
    if rng.random() < 0.5:
        ang = float(np.pi / 2 + gen.u(rng, 0.1, 1.2) * rng.choice([-1, 1]))
        if rng.random() < 0.2:                  # almost flat
            ang = float(np.exp(gen.u(rng, np.log(0.005), np.log(0.4))))
            ang = ang if rng.random() < 0.5 else np.pi - ang
        return SensorPeakDeformationLinear(angle=ang), {"angle": ang}
    rad = float(scale * np.exp(gen.u(rng, np.log(0.1 if rng.random() < 0.8 else 0.002), np.log(20))) * rng.choice([-1, 1]))
    return SensorPeakDeformationCircle(radius=rad), {"radius": rad}


def build(rng, rise=False):
    """(constructor arguments, window, deformation objects, their parameters)."""
    while True:
        kw, v1, v2 = parts(rng, rise=rise)
        if kw["sensor_peak_function"] is not None:
            break
    pk = kw["sensor_peak_function"]
    if len(pk) < 2 and rng.random() < 0.7:
        kw["sensor_peak_function"] = pk = pk + gen.peaks(rng, pk[0].mu0, 0.01, int(rng.integers(1, 5)), positive=True)
    n = len(pk)
    scale = abs(v1[1] - v1[0]) * np.linalg.norm(kw["alpha_sensor_gate"][0])
    sel = [int(i) for i in range(n) if rng.random() < 0.5] or [int(rng.integers(n))]
    objs, pars = {}, {}
    for i in sel:
        objs[i], pars[i] = deformation(rng, scale)
    return kw, v1, v2, objs, pars


def sensor(kw, objs):
    from simcats.sensor import SensorScanSensorGeneric
    return SensorScanSensorGeneric(**kw, sensor_peak_deformations=objs)


def run_case(m, rng, i):
    [curve, direct, direct, vanish, plunger, measured][i % 6](m, rng)


def curve(m, rng):
    kw, v1, v2, objs, pars = build(rng)
    s = sensor(kw, objs)
    r = ScanRef(kw, pars)
    m.check(sorted(s.sensor_peak_deformations) == sorted(objs), "owner", "peaks with deformations changed", **dict(given=sorted(objs)))
    for i, d in s.sensor_peak_deformations.items():
        m.check(d.sensor is s, "owner", "the deformation does not belong to the sensor", peak=i)
        x = np.sort(gen.u(rng, -0.3, 0.3, 40))
        if "radius" in pars[i]:
            rv = abs(pars[i]["radius"]) / np.linalg.norm(r.a[0])
            x = np.sort(np.concatenate([x, rv * gen.u(rng, -1.5, 1.5, 20), [0.0]]))
        keep, mu0 = x.copy(), float(r.peaks[i].mu0)
        y = d.calc_mu(dist=x, mu0=mu0)
        w = dict(deformation=pars[i], alpha=r.a[0])
        m.close(y, r.peak_centers(i, x), "centre_curve", "centre of the deformed peak", rtol=1e-9, atol=1e-12, **w)
        m.check(np.array_equal(x, keep), "inputs_untouched", "distances were modified", **w)
        k = int(rng.integers(len(x)))
        m.check(abs(float(d.calc_mu(dist=float(x[k]), mu0=mu0)) - y[k]) <= 1e-12, "centre_curve", "scalar and array evaluation differ", **w)
        m.check(abs(float(d.calc_mu(dist=0.0, mu0=mu0)) - mu0) < 1e-12, "centre_on_line", "shifted at distance zero", **w)
        z = x.reshape(-1, 5) if len(x) % 5 == 0 else x[None]
        m.check(np.array_equal(np.asarray(d.calc_mu(dist=z, mu0=mu0)).ravel(), np.asarray(y)), "centre_curve", "shape of the input matters", **w)
        sh = float(gen.u(rng, -0.1, 0.1))
        m.close(d.calc_mu(dist=x, mu0=mu0 + sh), np.asarray(y) + sh, "moves_with_mu0", "", rtol=1e-9, atol=1e-12, **w)
        if "radius" in pars[i]:
            # the attribute is what counts
            f = 1.7 if rng.random() < 0.5 else float(np.exp(gen.u(rng, -7, 3)) * rng.choice([-1, 1]))
            d.radius = pars[i]["radius"] * f
            r.deform[i] = {"radius": pars[i]["radius"] * f}
        else:
            d.angle = np.pi - pars[i]["angle"]
            r.deform[i] = {"angle": np.pi - pars[i]["angle"]}
        m.close(d.calc_mu(dist=x, mu0=mu0), r.peak_centers(i, x), "centre_curve", "after changing the parameter", rtol=1e-9, atol=1e-12, **w)
        m.distinct(np.asarray(y))


def sweep(rng, v1, v2, hi=18):
    v1, v2 = gen.flip(rng, v1), gen.flip(rng, v2)
    two_d = rng.random() < 0.5
    shape = tuple(int(x) for x in rng.integers(4, hi, 2)) if two_d else (int(rng.integers(10, 5 * hi)),)
    if not two_d:
        k = rng.integers(4)
        if k == 0:
            v1 = np.full(2, gen.u(rng, *np.sort(v1)))
        elif k == 1:
            v2 = np.full(2, gen.u(rng, *np.sort(v2)))
    return v1, v2, shape


def direct(m, rng):
    kw, v1, v2, objs, pars = build(rng)
    s = sensor(kw, objs)
    r = ScanRef(kw, pars)
    v1, v2, shape = sweep(rng, v1, v2)
    g = [float(gen.u(rng, -0.2, 0.05)) for _ in (0, 1)] if rng.random() < 0.85 else [None, None]
    occ1 = rng.uniform(0, 4, 2) if g[0] is not None else np.zeros(2)
    occ = np.broadcast_to(occ1, shape + (2,)).copy()
    volt = np.array([x or 0.0 for x in g])
    sv = ref.grid(v1, v2, shape[::-1] if len(shape) == 2 else shape[0])
    pots = r.potentials(occ, np.broadcast_to(volt, shape + (2,)), sv)
    dist = r.distances(sv, occ1, volt)
    w = dict(shape=shape, v1=v1, v2=v2, volts=g, deformations=pars, peaks=[p.mu0 for p in r.peaks], alpha=r.a)
    before = repr(s.sensor_peak_function)
    p = s.sensor_potential(occ, g[0], g[1], v1, v2)
    m.close(p, pots, "potentials", "deformations do not change potentials", rtol=1e-9, atol=1e-10, **w)
    c = np.asarray(s.sensor_response(np.array(p)))
    m.close(c, r.signal(pots, dist=dist)[0], "signal", "deformed signal", rtol=1e-6, atol=1e-9, **w)
    m.check(repr(s.sensor_peak_function) == before, "configured_peaks_unchanged", f"{s.sensor_peak_function} instead of {before}", **w)
    m.check(np.array_equal(np.asarray(s.sensor_response(np.array(p))), c), "repeatable", "second evaluation differs", **w)
    cond, mask = s.get_sensor_scan_labels(g[0], g[1], v1, v2, np.array(p))
    judge_labels(m, r, pots, cond, mask, occ1, volt, dist, **w)
    m.check(repr(s.sensor_peak_function) == before, "configured_peaks_unchanged", "by the labels", **w)
    # peaks without deformation stay where they are in the labels
    from simcats.sensor import SensorScanSensorGeneric
    s0 = SensorScanSensorGeneric(**kw)
    p0 = s0.sensor_potential(occ, g[0], g[1], v1, v2)
    c0, m0 = s0.get_sensor_scan_labels(g[0], g[1], v1, v2, np.array(p0))
    m.check(np.array_equal(c0, cond), "regimes_undeformed", "the regimes depend on the deformations", **w)
    for i in range(len(r.peaks)):
        if i not in pars:
            a, b = np.asarray(mask) == i + 1, np.asarray(m0) == i + 1
            # overwritten labels (another peak at the same pixel) are not judged
            free = (np.asarray(mask) == 0) | (np.asarray(m0) == 0)
            m.check(not ((a != b) & free).any(), "other_peaks_unaffected", f"label of peak {i + 1} moved", **w)
    m.event("deformed_pixels", int(c.size))
    m.distinct(c)
    m.sample(**w)


def vanish(m, rng):
    from simcats.sensor import SensorScanSensorGeneric
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
    kw, v1, v2, objs, pars = build(rng)
    # gradients high enough to make tiny displacements irrelevant are excluded by the tolerance
    objs = {i: SensorPeakDeformationLinear(np.pi / 2) if rng.random() < 0.5 else SensorPeakDeformationCircle(float(rng.choice([-1, 1]) * 1e9))
            for i in objs}
    v1, v2, shape = sweep(rng, v1, v2)
    g = [float(gen.u(rng, -0.2, 0.05)) for _ in (0, 1)]
    occ = np.broadcast_to(rng.uniform(0, 4, 2), shape + (2,)).copy()
    out = []
    for s in (sensor(kw, objs), SensorScanSensorGeneric(**kw)):
        p = s.sensor_potential(occ, g[0], g[1], v1, v2)
        out.append((np.asarray(s.sensor_response(np.array(p))),) + tuple(s.get_sensor_scan_labels(g[0], g[1], v1, v2, np.array(p))))
    w = dict(deformations=objs, shape=shape, v1=v1, v2=v2)
    m.close(out[0][0], out[1][0], "vanishing", "signal with a vanishing deformation", rtol=1e-3, atol=1e-5, **w)
    m.check(np.array_equal(out[0][1], out[1][1]), "vanishing", "regimes with a vanishing deformation", **w)
    m.distinct(out[0][0])


def plunger(m, rng):
    """Deformations are only applied to sensor sweeps."""
    from simcats.sensor import SensorScanSensorGeneric
    kw, v1, v2, objs, pars = build(rng)
    w1, w2 = gen.u(rng, -0.2, 0.05, 2), gen.u(rng, -0.2, 0.05, 2)
    two_d = rng.random() < 0.5
    shape = gen.shape(rng, two_d, (3, 15), (5, 60))
    occ = rng.uniform(0, 4, shape + (2,))
    sv = (float(gen.u(rng, *v1)), float(gen.u(rng, *v2)))
    out = []
    for s in (sensor(kw, objs), SensorScanSensorGeneric(**kw)):
        p = s.sensor_potential(occ, w1, w2, *sv)
        out.append(np.asarray(s.sensor_response(np.array(p))))
    m.check(np.array_equal(*out), "plunger_scan_undeformed", "deformations act on a scan of the plunger gates", shape=shape)
    m.distinct(out[0])


def measured(m, rng):
    s = Setup(rng, sensor="scan", res=(8, 20))
    rise = rng.random() < 0.3
    kw, v1, v2, objs, pars = build(rng, rise=rise)
    s.sensor, s.sw1, s.sw2 = sensor(kw, objs), v1, v2
    r = ScanRef(kw, pars)
    q = s.scan_request(hi=18)
    before = repr(s.sensor.sensor_peak_function)
    c, cond, mask, _ = s.sim().measure_sensor_scan(**q)
    occ = np.zeros(2)
    if q["volt_g1"] is not None:
        occ = gen.ideal(s.ikw).get_csd_data(np.array([q["volt_g1"]] * 2), np.array([q["volt_g2"]] * 2), 2)[0][0]
    volt = np.array([q["volt_g1"] or 0.0, q["volt_g2"] or 0.0])
    g = ref.grid(q["sweep_range_sensor_g1"], q["sweep_range_sensor_g2"], q["resolution"])
    p = r.potentials(np.broadcast_to(occ, g.shape), np.broadcast_to(volt, g.shape), g)
    dist = r.distances(g, occ, volt)
    w = dict(request=q, deformations=pars, rise=kw["final_rise"], config=s.describe())
    m.check(cond.shape == g.shape[:-1], "measured_labels", "shape", **w)
    judge_labels(m, r, p, cond, mask, occ, volt, dist, **w)
    judge_signal(m, r, c, p, dist, occ, volt, w)
    m.check(repr(s.sensor.sensor_peak_function) == before, "configured_peaks_unchanged", "by measuring", **w)
    m.distinct(c)


def judge_signal(m, r, c, p, dist, occ, volt, w):
    c = np.asarray(c)
    want = r.signal(p, occ, volt, dist)[0]
    if np.allclose(c, want, rtol=1e-6, atol=1e-9):
        m.check(True, "measured_signal")
        return
    fc = r.distances(r.sensor_point("fully_conductive", occ, volt), occ, volt)
    known = r.signal(p, None, None, np.broadcast_to(fc, p[0].shape))[0]
    if np.allclose(c, known, rtol=1e-6, atol=1e-9):
        m.fired["measured_signal"] = m.fired.get("measured_signal", 0) + 1
        m.event("scans_with_constant_distance")
        m.finding("constant-distance", "measure_sensor_scan evaluates all peak deformations at the fully conductive point")
        return
    m.close(c, want, "measured_signal", "measured deformed scan (neither the correct signal nor the listed defect)", rtol=1e-6, atol=1e-9, **w)


def known_probes(m):
    """Listed findings, on fixed inputs."""
    from simcats.sensor import SensorPeakGaussian, SensorRiseGLF, SensorScanSensorGeneric
    from simcats.sensor.barrier_function import BarrierFunctionGLF
    from simcats.sensor.deformation import SensorPeakDeformationCircle
    b = BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0, asymptote_right=1, growth_rate=30,
                           asymmetry=1.0, shape_factor=1.0)
    d = SensorPeakDeformationCircle(0.01)
    kw = dict(barrier_functions=b, sensor_peak_function=[SensorPeakGaussian(mu0=0.1, sigma=0.01, height=0.1)],
              alpha_sensor_gate=np.array([[0.03, 0.04], [1.0, 0.1], [0.1, 1.0]]))
    s = SensorScanSensorGeneric(**kw, sensor_peak_deformations={0: d})
    far = float(s.sensor_peak_deformations[0].calc_mu(dist=100.0, mu0=0.1))
    if abs(far - (0.1 - 0.01)) > 1e-9:
        m.check(abs(far - (0.1 - 0.01 / 0.05)) < 1e-9, "circle_far_away", f"{far}")
        m.finding("circle-units", f"outside of the circle the peak lies at {far} instead of mu0 - radius = {0.1 - 0.01}")
    # a final rise next to a deformed peak
    rise = SensorRiseGLF(mu0=0.0, asymptote_left=0, asymptote_right=0.3, growth_rate=1000, asymmetry=1.0, shape_factor=1.0,
                         fully_conductive_percentage=0.99)
    s = SensorScanSensorGeneric(**kw, final_rise=rise, sensor_peak_deformations={0: SensorPeakDeformationCircle(1e6)})
    r = ScanRef(dict(kw, final_rise=rise), {0: {"radius": 1e6}})
    v = np.array([0.0, 0.6])
    p = s.sensor_potential(np.zeros((50, 2)), 0.0, 0.0, v, v)
    c = np.asarray(s.sensor_response(np.array(p)))
    g = ref.grid(v, v, 50)
    dist = r.distances(g, np.zeros(2), np.zeros(2))
    if not np.allclose(c, r.signal(np.asarray(p), np.zeros(2), np.zeros(2), dist)[0], rtol=1e-5, atol=1e-8):
        m.close(c, r.signal(np.asarray(p), None, None, dist)[0], "rise_with_deformation", "", rtol=1e-5, atol=1e-8)
        m.finding("rise-ignored", "the final rise is missing in the signal of a sensor scan with deformed peaks")
