"""P39: warnings are given for the situations they describe and only for them."""
import copy
import warnings

import numpy as np

from vmon import gen
from vmon.sims import Setup

PID = "P39"
TITLE = "Warnings are given for the situations they describe and only for them"
RULE = ("distortions with lengths above and below the pixel pitch (with random activation), sensor scans with and without plunger voltages, "
        "scan sensors with and without negative responses and deformations, and ordinary measurements of random simulations; the user "
        "warnings of every call are recorded; non-trivial = distinct (situation, parameters)")
ASSUMPTIONS = ["lengths within 2 % of the pixel pitch and scans whose two gates would be judged differently are not judged",
               "only user warnings of the library are judged, and only whether there is one (not their text or number)"]
CASES = {"quick": 4000, "thorough": 60000}
REQUIRED = {"warned_short": 400, "quiet_long": 400, "quiet_inactive": 150, "quiet_disabled": 60, "warned_no_plunger": 60, "quiet_plunger": 100, "warned_negative": 60,
            "quiet_positive": 60, "warned_deformed_csd": 60, "quiet_deformed_scan": 60, "ordinary_quiet": 250, "potential_warns": 80}


def listen(f):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = f()
    return out, [str(r.message) for r in rec if issubclass(r.category, UserWarning)]


def lengths(m, rng):
    """Components directly: telegraph noise and dot jumps whose lengths are shorter or longer than a pixel."""
    from simcats.distortions import OccupationDotJumps, SensorPotentialRTN, SensorResponseRTN
    two = rng.random() < 0.5
    res = (int(rng.integers(3, 60)), int(rng.integers(3, 60)))                   # gate 1, gate 2
    ext = np.exp(gen.u(rng, np.log(1e-3), np.log(2), 2))
    lo = gen.u(rng, -1, 1, 2)
    if not two:
        res = (res[0], res[0])
        k = rng.integers(4)
        if k < 2:
            ext[k] = 0
    v = [np.array([lo[j], lo[j] + ext[j]]) for j in range(2)]
    ext = [v[j][1] - v[j][0] for j in range(2)]
    v = [x[::-1] if rng.random() < 0.4 else x for x in v]
    jumps = rng.random() < 0.4
    if jumps:
        axis = int(rng.integers(2))
        gates = [0] if axis == 1 else [1]
        if ext[gates[0]] == 0:
            gates = []
    else:
        gates = [j for j in range(2) if ext[j] > 0]
    pitch = [ext[j] / res[j] for j in gates]
    steps = [ext[j] / (res[j] - 1) for j in gates]                                # both notions of a pixel pitch
    ratio = float(rng.choice([0.5, 1, 1]))
    if pitch:
        short = rng.random() < 0.5
        scale = float(0.98 * min(pitch + steps) * np.exp(-gen.u(rng, 0, 3)) if short
                      else 1.02 * max(pitch + steps) * np.exp(gen.u(rng, 0, 3)))
    else:
        short, scale = False, float(np.exp(gen.u(rng, -6, 0)))
    if not jumps and rng.random() < 0.15:
        short, scale = False, 0.0
    g = np.random.default_rng(int(rng.integers(1 << 31)))
    shape = res[::-1] if two else (res[0],)
    w = dict(two_d=two, resolution=res, sweep=v, scale=scale, ratio=ratio, jumps=jumps)
    if jumps:
        d = OccupationDotJumps(scale=scale, lam=scale * float(gen.u(rng, 0, 1)), axis=axis, ratio=ratio, rng=g)
        w["axis"] = axis

        def call():
            return d.noise_function(np.zeros(shape + (2,)), np.zeros(shape), v[0], v[1], None)
    else:
        cls = SensorPotentialRTN if rng.random() < 0.5 else SensorResponseRTN
        d = cls(scale=scale, std=0.1, height=1.0, ratio=ratio, rng=g)

        def call():
            return d.noise_function(np.zeros(shape), v[0], v[1])
    if jumps and not two and not short and rng.random() < 0.5:
        return
    _, got = listen(call)
    m.distinct(two, res, scale, v[0], v[1])
    if scale == 0:
        m.check(not got, "quiet_disabled", f"disabled noise, but: {got}", **w)
    elif not d.activated:
        m.check(not got, "quiet_inactive", f"the distortion is not active, but: {got}", **w)
    elif short:
        m.check(bool(got), "warned_short", "no warning although the length is below a pixel", **w)
    else:
        m.check(not got, "quiet_long", f"warning although the length is above a pixel: {got}", **w)


def stub(rng):
    from simcats.ideal_csd import IdealCSDInterface
    o = gen.u(rng, 0, 2, 2)

    class Constant(IdealCSDInterface):
        def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution):
            n = resolution if isinstance(resolution, int) else tuple(int(k) for k in resolution[::-1])
            out = np.zeros((n if isinstance(n, tuple) else (n,)) + (2,))
            out[:] = o
            return out, np.zeros(out.shape[:-1], dtype=np.uint8)
    return Constant()


def scans(m, rng):
    from simcats import Simulation
    from simcats.ideal_csd import IdealCSDGeometric
    from simcats.sensor import SensorScanSensorGeneric
    kw, a, b = gen.scan_sensor_parts(rng, rise=False, peaks_none=bool(rng.random() < 0.2))
    s = Setup(rng, sensor="generic", res=(8, 15))
    csd = gen.ideal(s.ikw) if rng.random() < 0.6 else stub(rng) if rng.random() < 0.5 else None
    sensor = SensorScanSensorGeneric(**kw)
    kind = rng.integers(3)
    if kind == 0 and sensor.sensor_peak_function:       # a response that may be negative
        k = rng.integers(3)
        if k == 2:
            p = sensor.sensor_peak_function[int(rng.integers(len(sensor.sensor_peak_function)))]
            p.height = -abs(p.height)
        else:
            bf = sensor.barrier_functions[k]
            if hasattr(bf, "asymptote_left"):
                bf.asymptote_left = -float(gen.u(rng, 0.001, 0.05)) * abs(bf.asymptote_right - bf.asymptote_left)
    sim = Simulation(volt_limits_g1=None, volt_limits_g2=None, ideal_csd_config=csd, sensor=sensor)
    two = rng.random() < 0.5
    res = np.array([int(rng.integers(4, 12)), int(rng.integers(4, 12))]) if two else int(rng.integers(4, 30))
    v1, v2 = gen.flip(rng, a), gen.flip(rng, b)
    given = rng.random() < 0.5
    g1, g2 = (float(gen.u(rng, *s.w1)), float(gen.u(rng, *s.w2))) if given else (None, None)
    if given and not isinstance(csd, IdealCSDGeometric) and rng.random() < 0.5:       # 0 V is a voltage
        g1, g2 = [(0.0, g2), (g1, 0.0), (0.0, 0.0), (0, 0)][rng.integers(4)]
    req = dict(sweep_range_sensor_g1=v1, sweep_range_sensor_g2=v2, volt_g1=g1, volt_g2=g2, resolution=res)
    (_, _, _, meta), got = listen(lambda: sim.measure_sensor_scan(**copy.deepcopy(req)))
    # responses of the parts at the potentials of the scan
    occ = np.zeros((res if not two else res[1],) + (() if not two else (res[0],)) + (2,))
    if csd is not None and given:
        occ[:] = sim.ideal_csd_config.get_csd_data(np.array([g1, g1]), np.array([g2, g2]), 1)[0][0]
    t = copy.deepcopy(sensor)
    pot = t.sensor_potential(occ, g1, g2, v1, v2)
    peaks = t.sensor_peak_function
    resp = pot[0] if peaks is None else sum(p.sensor_function(pot[0]) for p in peaks)
    low = min(resp.min(), t.barrier_functions[0].get_value(pot[1]).min(), t.barrier_functions[1].get_value(pot[2]).min())
    w = dict(request=req, csd=csd is not None, lowest=float(low))
    m.distinct(pot)
    if abs(low) < 1e-9 and low < 0:
        return
    if csd is not None and not given:
        m.check(bool(got), "warned_no_plunger", "no warning that the charge diagram is ignored", **w)
    elif low < 0:
        m.check(bool(got), "warned_negative", "no warning about negative responses", **w)
    else:
        m.check(not got, "quiet_positive", f"{got}", **w)
        if csd is not None:
            m.check(not got, "quiet_plunger", f"{got}", **w)


def deformed(m, rng):
    from simcats import Simulation
    from simcats.sensor import SensorScanSensorGeneric
    from simcats.sensor.deformation import SensorPeakDeformationLinear
    kw, a, b = gen.scan_sensor_parts(rng, rise=False)
    if not kw["sensor_peak_function"]:
        return
    on = rng.random() < 0.75
    if on:
        kw["sensor_peak_deformations"] = {int(rng.integers(len(kw["sensor_peak_function"]))): SensorPeakDeformationLinear(angle=float(gen.u(rng, 1, 2)))}
    s = Setup(rng, sensor="generic", res=(8, 12))
    sim = Simulation(volt_limits_g1=None, volt_limits_g2=None, ideal_csd_config=gen.ideal(s.ikw), sensor=SensorScanSensorGeneric(**kw))
    two = rng.random() < 0.5
    x, y = float(gen.u(rng, *a)), float(gen.u(rng, *b))
    if rng.random() < 0.3:                              # the potential of the sensor directly, one or both plunger gates swept
        t = SensorScanSensorGeneric(**kw)
        v = [[gen.flip(rng, s.w1), float(s.w2[0])], [float(s.w1[0]), gen.flip(rng, s.w2)], [s.w1, s.w2], [float(s.w1[0]), float(s.w2[1])],
             [None, gen.flip(rng, s.w2)], [None, None]][rng.integers(6)]
        swept = any(isinstance(k, np.ndarray) for k in v)
        _, got = listen(lambda: t.sensor_potential(np.zeros((7, 2)), *v))
        m.check(bool(got) == (swept and bool(on)), "potential_warns", f"{got}", plunger=v, deformed=bool(on))
        return
    if rng.random() < 0.5:
        r = s.request(two_d=bool(two), n=int(rng.integers(5, 20)))[0]
        (csd, *_), got = listen(lambda: sim.measure(**r, volt_sensor_g1=x, volt_sensor_g2=y))
        ends = [r["sweep_range_g1"], r["sweep_range_g2"]]
        if on and any(e[0] != e[1] for e in ends):
            m.check(bool(got), "warned_deformed_csd", "no warning although deformations can't be applied to swept plunger gates", request=r)
        elif not on and csd.min() > 1e-9:
            m.check(not got, "quiet_undeformed_csd", f"{got}", request=r)
    else:
        r = dict(sweep_range_sensor_g1=gen.flip(rng, a), sweep_range_sensor_g2=gen.flip(rng, b), volt_g1=float(gen.u(rng, *s.w1)),
                 volt_g2=float(gen.u(rng, *s.w2)), resolution=np.array([6, 7]) if two else 9)
        _, got = listen(lambda: sim.measure_sensor_scan(**r))
        m.check(not got, "quiet_deformed_scan", f"{got}", request=r, deformed=bool(on))
    m.distinct(r)


def ordinary(m, rng):
    """Measurements without any of the situations above are silent, whatever else happens."""
    s = Setup(rng, sensor="generic", res=(8, 20))
    span = s.span
    from simcats import distortions as D
    g = [np.random.default_rng(int(k)) for k in rng.integers(1 << 31, size=5)]
    pot = [D.SensorPotentialPinkNoise(1e-4, rng=g[0]), D.SensorPotentialRTN(span * 2, 1e-4, 1e-4, rng=g[1])]
    resp = [D.SensorResponseWhiteNoise(1e-3, rng=g[2]), D.SensorResponseRTN(span * 2, 1e-4, 1e-4, rng=g[3])]
    sim = s.sim(occupation_distortions=[D.OccupationTransitionBlurringGaussian(0.02 * span)], sensor_potential_distortions=pot,
                sensor_response_distortions=resp)
    r = s.request(n=int(rng.integers(5, 40)))[0]
    _, got = listen(lambda: sim.measure(**r))
    m.check(not got, "ordinary_quiet", f"{got}", request=r, config=s.describe())
    m.distinct(r)


def run_case(m, rng, i):
    k = i % 8
    (lengths if k < 4 else scans if k < 6 else deformed if k == 6 else ordinary)(m, rng)
