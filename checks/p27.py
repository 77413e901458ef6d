"""P27: randomly sampled configurations are valid and within documented bounds."""
import contextlib

import numpy as np

from vmon import gen, ref, snap, stats

PID = "P27"
TITLE = "Randomly sampled configurations are valid and within documented bounds"
RULE = ("configurations drawn with random sensor type, quality multiplier, compensation and steepest-point option; every configuration's "
        "parameters judged against the documented ranges and relations and measured over its limits; non-trivial = distinct configuration")
ASSUMPTIONS = ["full-range scans with at least 10 points per axis (the resolution the sampler itself ensures)",
               "statistical monitors alarm at p < 1e-9 only"]
CASES = {"quick": 240, "thorough": 6000}
REQUIRED = {"measurable": 400, "tct_parameters": 200, "transitions_ordered": 200, "enough_transitions": 200, "sensor_parameters": 200,
            "sensor_scannable": 80, "steepest_point": 30, "noise_settings": 200, "defaults_untouched": 200, "distribution": 3, "rejected": 100, "crowded_peaks": 30}
LO, HI = -0.2, -0.06


class Crowding(np.random.Generator):
    """A generator whose uniform numbers start with a few fixed relative positions, which places the peaks of a sensor so that
    hardly any room is left for the last one: a legal but rare outcome."""

    def __init__(self, bits, share, first):
        super().__init__(bits)
        self.share, self.first = share, first

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None or self.first <= 0:
            return super().uniform(low, high, size)
        self.first -= 1
        return low + (high - low) * float(self.share[int(self.integers(len(self.share)))])

    def choice(self, a, *args, **kw):
        return np.max(a) if not args and not kw and self.random() < 0.8 else super().choice(a, *args, **kw)


def crowded(m, rng):
    """Many peaks that hardly fit: the distances between them are still kept."""
    from simcats.config_samplers import _GaAs_v1_random_variations_v3_config_sampler as mod
    n = int(rng.choice([3, 4, 5]))
    step = float(gen.u(rng, 0.6, 1.0)) * 2 / (1.5 * (n + 1))
    share = 0.5 + step * (np.arange(n) - (n - 1) / 2)
    share = share[(share > 0) & (share < 1)]
    orig = np.random.default_rng
    np.random.default_rng = lambda *a, **k: orig(*a, **k) if a or k else Crowding(np.random.PCG64(int(rng.integers(2 ** 63))), share, 90)
    try:
        s = mod.sample_SensorGeneric()
    finally:
        np.random.default_rng = orig
    pk = s.sensor_peak_function
    pot = s.sensor_potential(np.array([[0., 0.], [5., 5.]]), np.array([LO, HI]), np.array([LO, HI]))
    mus = np.sort([p.mu0 for p in pk])
    span = float(pot.max() - pot.min())
    m.check(np.diff(mus).min() > span / (2 * len(pk)) and pot.min() <= mus[0] and mus[-1] <= pot.max(), "crowded_peaks",
            f"peak positions {mus} for potentials {pot}")


@contextlib.contextmanager
def seeded(rng):
    """The sampler draws its generators itself: make them a function of the case, so that a case can be replayed."""
    orig = np.random.default_rng
    np.random.default_rng = lambda *a, **k: orig(*a, **k) if a or k else orig(int(rng.integers(2 ** 63)))
    try:
        yield
    finally:
        np.random.default_rng = orig


def run_case(m, rng, i):
    from simcats import Simulation, default_configs
    from simcats.config_samplers import sample_random_variations_v3_config as sample
    from simcats.sensor import SensorGeneric, SensorScanSensorGeneric
    scan = i % 3 == 2
    q = float(gen.u(rng, 0.05, 1)) if rng.random() < 0.8 else 1.0
    comp = bool(rng.random() < 0.4)
    steep = bool(not scan and i % 3 == 1 and rng.random() < 0.6)
    w = dict(scan_sensor=scan, quality=q, compensated=comp, steepest=steep)
    if rng.random() < 0.6:
        for bad in (dict(quality_multiplier=float(rng.choice([0.0, -0.5, 1.0001, 7, np.nan]))),
                    dict(sensor_type=str(rng.choice(["", "Sensor", "sensorgeneric", "SensorScanSensor"])))):
            try:
                sample(**bad)
                m.check(False, "rejected", f"{bad} was accepted")
            except ValueError:
                m.check(True, "rejected")
    if rng.random() < 0.3:
        crowded(m, rng)
    before = snap.snap(default_configs)
    kw = dict(sensor_type="SensorScanSensorGeneric" if scan else "SensorGeneric", quality_multiplier=q, compensated_sensor=comp,
              set_sensor_potential_offset_to_steepest_point=steep)
    if not scan and not comp and not steep and q == 1.0 and rng.random() < 0.7:
        kw = {}
    with seeded(rng):
        c = sample(**kw)
    m.check(snap.snap(default_configs) == before, "defaults_untouched", "sampling changed the default configurations", **w)
    judge_csd(m, c, w)
    s = c["sensor"]
    m.check(type(s) is (SensorScanSensorGeneric if scan else SensorGeneric), "sensor_parameters", f"{type(s)}", **w)
    judge_coupling(m, s, q, comp, scan, w)
    (judge_scan_sensor if scan else judge_generic)(m, rng, c, q, steep, w)
    judge_noise(m, c, q, w)
    # measurable
    sim = Simulation(**c)
    ideal = Simulation(volt_limits_g1=c["volt_limits_g1"], volt_limits_g2=c["volt_limits_g2"], ideal_csd_config=c["ideal_csd_config"])
    full = c["volt_limits_g1"], c["volt_limits_g2"]
    m.check(all(np.array_equal(v, [LO, HI]) for v in full), "limits", f"{full}", **w)
    for k in range(3):
        a, b = (full if k else [np.sort(gen.u(rng, LO, HI, 2)) for _ in (0, 1)])
        a, b = gen.flip(rng, np.asarray(a)), gen.flip(rng, np.asarray(b))
        res = np.array([int(x) for x in rng.integers(15, 60, 2)])
        if k == 2:
            res = int(rng.integers(15, 200))
        out = sim.measure(a, b, resolution=res)
        sh = (res,) if k == 2 else (res[1], res[0])
        m.check(out[0].shape == sh and np.isfinite(out[0]).all() and out[1].shape == tuple(sh) + (2,), "measurable", f"{out[0].shape}", **w)
    occ = ideal.measure(*full, resolution=np.array([24, 24]))[1]
    tot = occ.sum(-1)
    m.check((np.diff(tot, axis=0) > -1e-6).all() and (np.diff(tot, axis=1) > -1e-6).all() and tot.max() >= 2, "more_electrons",
            "electrons are lost with rising voltages", **w)
    if scan:
        res = np.array([int(x) for x in rng.integers(10, 30, 2)])
        c2, cond, mask, _ = sim.measure_sensor_scan(c["volt_limits_sensor_g1"], c["volt_limits_sensor_g2"], volt_g1=-0.15, volt_g2=-0.12,
                                                    resolution=res)
        m.check(c2.shape == (res[1], res[0]) and np.isfinite(c2).all() and cond.shape == c2.shape, "sensor_scannable", f"{c2.shape}", **w)
        m.check(cond.max() == 2 and cond.min() == 0, "sensor_scannable", f"regimes {np.unique(cond)} in the full sensor scan", **w)
    m.distinct(np.concatenate([np.asarray(x) for x in c["ideal_csd_config"].tct_params]))
    m.sample(**w)


def judge_csd(m, c, w):
    csd = c["ideal_csd_config"]
    p = np.array([np.asarray(x, float) for x in csd.tct_params])
    a = p[0]
    e = 1e-9
    ang = np.arctan(a[2]) - np.arctan(a[3])
    wd = float(np.hypot(a[6] - a[4], a[7] - a[5]))
    ok = (0.01 - e <= a[0] <= 0.025 + e and 0.01 - e <= a[1] <= 0.025 + e and 0.21429 - e <= a[2] <= 0.54688 + e
          and -0.44 - e <= a[3] <= -0.07692 + e and 0.43760867228 - e <= ang <= 1.6789624091 + e and 0.00043 - e <= wd <= 0.00814 + e)
    m.check(ok, "tct_parameters", f"first transition out of range: {a}, angle {ang}, width {wd}", **w)
    # apex in the direction of the mean slope, first anchor in the lower left corner
    d = (a[7] - a[5]) / (a[6] - a[4])
    m.check(a[6] > a[4] and abs(d - (a[2] + a[3]) / 2) < 1e-9, "tct_parameters", "second anchor is not in direction of the mean slope", **w)
    m.check(np.allclose(ref.rot(a[4:6], -np.pi / 4), [-0.14, -0.14], atol=1e-9), "tct_parameters", f"first anchor {a[4:6]}", **w)
    # all transitions are shifted copies
    if len(p) > 1:
        st = np.diff(p, axis=0)
        m.check(np.allclose(st[:, :4], 0) and np.allclose(st, st[0], atol=1e-12) and np.allclose(st[0, 4:6], st[0, 6:8]), "tct_parameters",
                "transitions are not equally shifted copies", **w)
        iv = st[0, 4:6] + np.array([a[1], a[1] * a[3]])
        ln = float(np.hypot(*iv))
        turn = np.arctan2(iv[1], iv[0]) - np.arctan(a[2])
        m.check(0.00261 - e <= ln <= 0.00987 + e and 0.58153916891 - e <= turn <= 1.396938844 + e, "tct_parameters",
                f"interdot vector of length {ln} and angle {turn}", **w)
        m.check(0.8692269873 - 1e-6 <= ln / wd <= 9.055385139, "tct_parameters", f"interdot length / width = {ln / wd}", **w)
        m.check((ref.rot(iv, -np.pi / 4) >= -1e-12).all(), "tct_parameters", "interdot vector goes backwards", **w)
    xs = np.linspace(-0.1, 0.1, 1500)
    ts = [ref.TCT(x, j + 1) for j, x in enumerate(p)]
    ys = [t(xs) for t in ts]
    gap = min([(v - u).min() for u, v in zip(ys, ys[1:])] or [1])
    m.check(gap > 0 and all(t.dl >= 0 and t.dr >= 0 and t.dl < a[0] / 2 and t.dr < a[1] / 2 for t in ts), "transitions_ordered",
            f"transitions cross (gap {gap})", **w)
    m.check(csd.lut_entries == 1000 and csd.rotation == -np.pi / 4, "tct_parameters", f"{csd.lut_entries}, {csd.rotation}", **w)
    # the last transition passes above the whole window, the one before does not (10 points per axis: half a pitch of margin)
    h = (HI - LO) / 9 / 2 * 1.3
    top = ref.CSDRef(list(p), csd.rotation, csd.lut_entries, csd.cdf_type, csd.cdf_gamma_factor)
    g = ref.grid(np.array([LO, HI]), np.array([LO, HI]), [60, 60])
    m.check(top.margins(g)[-1].max() < 1e-6, "enough_transitions", "the window reaches beyond the last transition", **w)
    if len(p) > 1:
        g = ref.grid(np.array([LO - h, HI + h]), np.array([LO - h, HI + h]), [60, 60])
        m.check(top.margins(g)[-2].max() > -1e-3, "enough_transitions", "more transitions than needed", **w)


def judge_coupling(m, s, q, comp, scan, w):
    ad, ag = np.asarray(s.alpha_dot), np.asarray(s.alpha_gate)
    if scan:
        m.check(np.array_equal(ad[0], ad[1]) and np.array_equal(ad[0], ad[2]) and np.array_equal(ag[0], ag[1]), "sensor_parameters", "", **w)
        ad, ag = ad[0], ag[0]
    lo, hi = (0.0001, 0.0005) if comp else (0.02805, 0.15093)
    m.check(lo <= ag[0] <= hi and 0.5 * ag[0] <= ag[1] <= 2 * ag[0], "sensor_parameters", f"gate lever arms {ag}", **w)
    b1 = -0.0007994 + q * (-0.0000961 + 0.0007994)
    b2 = -0.0005214 + q * (-0.0000630 + 0.0005214)
    e = 1e-12
    m.check(-0.0007994 - e <= ad[0] <= b1 + e and ad[0] <= -6e-4 * ag[0] + e, "sensor_parameters", f"dot lever arm 1 {ad[0]}, bound {b1}", **w)
    m.check(-0.0005214 - e <= ad[1] <= b2 + e and ad[1] >= 2 * ad[0] - e, "sensor_parameters", f"dot lever arm 2 {ad[1]}, bound {b2}", **w)


def judge_generic(m, rng, c, q, steep, w):
    s = c["sensor"]
    pk = s.sensor_peak_function
    n = len(pk)
    m.check(3 <= n <= 6, "sensor_parameters", f"{n} peaks", **w)
    ag, ad = np.asarray(s.alpha_gate), np.asarray(s.alpha_dot)
    e1 = ag.sum() * LO
    e2 = ag.sum() * HI + 5 * ad.sum()
    mn, mx = min(e1, e2), max(e1, e2)
    mu = np.sort([p.mu0 for p in pk])
    m.check(mu[0] >= mn - 1e-12 and mu[-1] <= mx + 1e-12, "sensor_parameters", f"peaks at {mu}, potentials in [{mn}, {mx}]", **w)
    m.check((np.diff(mu) > (mx - mn) / (2 * n) - 1e-12).all(), "sensor_parameters", f"peaks too close: {np.diff(mu)}", **w)
    h, o, gm = [np.array([getattr(p, k) for p in pk]) for k in ("height", "offset", "gamma")]
    m.check(0.02245 <= h[0] <= 0.19204 and -0.42275 <= o[0] <= -0.0838 and (gm >= 0.0009636).all() and (gm <= 0.0029509).all(),
            "sensor_parameters", f"first peak {pk[0]}, widths {gm}", **w)
    m.check((np.abs(h / h[0] - 1) <= 0.2 + 1e-9).all() and (np.abs(o / o[0] - 1) <= 0.2 + 1e-9).all(), "sensor_parameters",
            f"heights {h}, offsets {o} differ by more than 20 %", **w)
    sc = 0.6 * q / np.log(100)
    m.put("u_height", float((1 - np.exp(-(0.19204 - h[0]) / (0.19204 - 0.02245) / sc)) / (1 - np.exp(-1 / sc))))
    if not steep:
        m.check(s.offset_mu_sens == 0, "sensor_parameters", f"offset {s.offset_mu_sens}", **w)
        return
    rg = mx - mn

    def slope(x):
        # Lorentzian derivative, independent of the code
        d = 0.0
        for p in pk:
            z = x - p.mu0
            d = d - 2 * p.height * p.gamma ** 2 * z / (z * z + p.gamma ** 2) ** 2
        return d
    x = np.linspace(mn - 0.2 * rg, mx + 0.2 * rg, 400001)
    m.check(slope(np.array([s.offset_mu_sens]))[0] >= 0.999 * slope(x).max(), "steepest_point",
            f"slope {slope(np.array([s.offset_mu_sens]))[0]} at the offset, steepest {slope(x).max()}", **w)


def judge_scan_sensor(m, rng, c, q, steep, w):
    s = c["sensor"]
    pk = s.sensor_peak_function
    mu, h, gm, o = [np.array([getattr(p, k) for p in pk]) for k in ("mu0", "height", "gamma", "offset")]
    m.check(20 <= len(pk) <= 30 and (np.diff(mu) > 0).all() and (h >= 0).all() and (gm > 0).all() and (gm <= 0.0022 + 1e-12).all()
            and not o.any(), "sensor_parameters", f"{len(pk)} peaks, spacing {np.diff(mu).min()}, heights from {h.min()}, widths to {gm.max()}", **w)
    a = np.asarray(s.alpha_sensor_gate)
    m.check(abs(a[0].max() - 0.1) < 1e-12 and (a[0] > 0).all() and a[1, 0] == 0.99 and a[2, 1] == 0.99 and 0.1 <= a[1, 1] <= 0.3
            and 0.1 <= a[2, 0] <= 0.3, "sensor_parameters", f"lever arms {a}", **w)
    b = s.barrier_functions
    for x in b:
        m.check(x.asymptote_left == 0 and abs(x.asymptote_right - 0.25 * q) < 1e-12 and 20 <= x.growth_rate <= 40
                and x.pinch_off_percentage == 0.001 and x.fully_conductive_percentage == 0.999, "sensor_parameters", f"{x}", **w)
    base = np.linalg.solve(a[1:], [float(x.pinch_off) for x in b])
    m.check((base >= -0.688 - 1e-6).all() and (base <= -0.509 + 1e-6).all(), "sensor_parameters", f"pinch-off point at {base}", **w)
    m.check(abs(mu[0] - (a[0] @ base - 0.05)) < 1e-6, "sensor_parameters", f"first peak at {mu[0]}, expected {a[0] @ base - 0.05}", **w)
    z = np.linspace(mu[0] - 0.01, mu[-1] + 0.01, 200001)
    top = sum(ref.peak_value(p, z) for p in pk).max()
    r = s.final_rise
    m.check(r.asymptote_left == 0 and abs(r.asymptote_right / (1.05 * top) - 1) < 2e-2 and 400 <= r.growth_rate <= 600, "sensor_parameters",
            f"rise {r} for peaks up to {top}", **w)
    m.check(np.array_equal(c["volt_limits_sensor_g1"], [-1, 0]) and np.array_equal(c["volt_limits_sensor_g2"], [-1, 0]), "limits", "", **w)


def judge_noise(m, c, q, w):
    from simcats import distortions as D
    o, p, r = [{type(x).__name__ if not isinstance(x, D.OccupationDotJumps) else f"jumps{x.axis}": x for x in c[k]} for k in
               ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions")]
    m.check(set(o) == {"OccupationTransitionBlurringFermiDirac", "jumps0", "jumps1"} and set(p) == {"SensorPotentialPinkNoise", "SensorPotentialRTN"}
            and set(r) == {"SensorResponseRTN", "SensorResponseWhiteNoise"}, "noise_settings", f"{o} {p} {r}", **w)
    f = o["OccupationTransitionBlurringFermiDirac"].sigma
    z = [f.sample_parameter() for _ in range(8)]
    m.check(0.25 * 3e-4 <= min(z) and max(z) <= 2 * 3e-4, "noise_settings", f"blurring {z}", **w)
    for k, ratio in ((0, 0.01), (1, 0.01 / 6)):
        j = o[f"jumps{k}"]
        m.check(np.isclose([j.ratio, j.scale, j.lam], [ratio, 0.03, 0.0018]).all(), "noise_settings", f"{j}", **w)
    t = p["SensorPotentialRTN"]
    m.check(np.isclose([t.ratio, t.scale, t.std, t.height], [q / 6, 74.56704 * 3e-4, 3.491734e-05, 2.53855325e-05]).all(), "noise_settings",
            f"{t}, quality {q}", **w)
    t = r["SensorResponseRTN"]
    m.check(np.isclose([t.ratio, t.scale, t.std, t.height], [0.01 * q, 3.0, 0.0474537676, 0.0152373696]).all(), "noise_settings",
            f"{t}, quality {q}", **w)
    sc = 0.6 * q / np.log(100)
    for name, d in (("pink", p["SensorPotentialPinkNoise"]), ("white", r["SensorResponseWhiteNoise"])):
        z = np.array([d.sigma.sample_parameter() for _ in range(6)])
        m.check(z.min() >= 1e-10 and z.max() <= 0.0005, "noise_settings", f"{name} noise {z}", **w)
        for u in (1 - np.exp(-(z - 1e-10) / (0.0005 - 1e-10) / sc)) / (1 - np.exp(-1 / sc)):
            m.put("u_" + name, float(u))
    m.event("sampled_settings", 20)


def finish(m):
    for k in ("u_height", "u_pink", "u_white"):
        x = np.array(m.data.get(k, []))
        if len(x) >= 60:
            p = stats.ks(x, "uniform")
            m.check(p > 1e-9, "distribution", f"{k}: strength does not follow the quality multiplier, p = {p}, n = {len(x)}")
