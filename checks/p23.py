"""P23: sensor scan labels describe the scanned regimes."""
import numpy as np

from vmon import gen, ref
from vmon.scanref import ScanRef, judge_labels
from vmon.sims import Setup
from checks.p22 import parts

PID = "P23"
TITLE = "Sensor scan labels describe the scanned regimes"
RULE = ("random scan sensors (0-5 peaks in random order, single/multi barriers) and sensor scans (1D/2D, all directions, with and without "
        "plunger voltages and noise), every pixel's label judged against an independent model; non-trivial = distinct label masks")
ASSUMPTIONS = ["pixels within 1e-9 of a threshold are not judged", "if several peaks are closest to the same pixel, any of them may be shown",
               "peaks less than one step outside of the window may be labelled at the edge"]
CASES = {"quick": 1500, "thorough": 40000}
REQUIRED = {"regimes": 1200, "peaks_only_in_regime_1": 1200, "one_pixel_per_row": 1500, "closest_pixel": 1500, "peak_labelled": 1500,
            "labels_deterministic": 200}


def run_case(m, rng, i):
    from simcats.sensor import SensorScanSensorGeneric
    s = Setup(rng, sensor="scan", res=(8, 20))
    kw, s.sw1, s.sw2 = parts(rng)
    pk = kw["sensor_peak_function"]
    if pk is not None and rng.random() < 0.3:
        # peaks spread over the scanned potentials, single peak without a list
        kw["sensor_peak_function"] = gen.peaks(rng, pk[0].mu0, 0.02, int(rng.integers(3, 9)), positive=True)
    elif pk is not None and rng.random() < 0.1:
        kw["sensor_peak_function"] = pk[0]
    s.sensor = SensorScanSensorGeneric(**kw)
    r = ScanRef(kw)
    q = s.scan_request()
    if isinstance(q["volt_g1"], float) and rng.random() < 0.1:
        q["volt_g1"] = np.float64(q["volt_g1"])
    noise = {}
    if rng.random() < 0.3:
        noise = dict(sensor_potential_distortions=gen.pot_distortions(rng, 0.05, 1), sensor_response_distortions=gen.resp_distortions(rng, 0.05, 1))
    c, cond, mask, _ = s.sim(**noise).measure_sensor_scan(**q)
    occ = np.zeros(2)
    if q["volt_g1"] is not None:
        occ = gen.ideal(s.ikw).get_csd_data(np.array([q["volt_g1"]] * 2), np.array([q["volt_g2"]] * 2), 2)[0][0]
    volt = np.array([q["volt_g1"] or 0.0, q["volt_g2"] or 0.0])
    g = ref.grid(q["sweep_range_sensor_g1"], q["sweep_range_sensor_g2"], q["resolution"])
    p = r.potentials(np.broadcast_to(occ, g.shape), np.broadcast_to(volt, g.shape), g)
    w = dict(request=q, peaks=[x.mu0 for x in r.peaks or []], config=s.describe())
    m.check(cond.shape == g.shape[:-1] and mask.shape == g.shape[:-1], "shape", f"{cond.shape} {mask.shape}", **w)
    judge_labels(m, r, p, cond, mask, occ, volt, **w)
    if rng.random() < 0.3:
        _, c2, m2, _ = s.sim().measure_sensor_scan(**q)
        m.check(np.array_equal(c2, cond) and np.array_equal(m2, mask), "labels_deterministic", "labels depend on noise or history", **w)
    m.distinct(np.asarray(cond), np.asarray(mask))
    m.sample(**w)
