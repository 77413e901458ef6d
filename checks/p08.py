"""P08: sensor potential and Coulomb-peak response follow their formulas."""
import numpy as np

from vmon import gen, ref
from vmon.sims import Setup

PID = "P08"
TITLE = "Sensor potential and Coulomb-peak response follow their formulas"
RULE = ("random generic sensors (lever arms, offsets, 0-6 Gaussian/Lorentzian peaks), occupations and sweep ranges (1D/2D, any "
        "direction, fixed gates), directly and through Simulation.measure; non-trivial = distinct potential with variation")
ASSUMPTIONS = []
CASES = {"quick": 3000, "thorough": 150000}
REQUIRED = {"potential": 1000, "response": 1000, "no_peaks": 200, "peak_order": 300, "measured_signal": 200, "peak_formula": 1000, "number_formats": 1000}


def response(peaks, mu):
    if peaks is None:
        return mu
    return sum((ref.peak_value(p, mu) for p in peaks), np.zeros(np.shape(mu)))


def run_case(m, rng, i):
    from simcats.sensor import SensorGeneric, SensorPeakGaussian, SensorPeakLorentzian
    if i % 8 == 0:
        s = Setup(rng, sensor="generic", res=(8, 40))
        kw, _ = s.request()
        sig, occ, _, _ = s.sim().measure(**kw)
        v = ref.grid(kw["sweep_range_g1"], kw["sweep_range_g2"], kw["resolution"] if np.ndim(kw["resolution"]) else [kw["resolution"]])
        mu = s.sensor.offset_mu_sens + occ @ s.sensor.alpha_dot + v @ s.sensor.alpha_gate
        exp = response(s.sensor.sensor_peak_function, mu)
        m.close(sig, exp, "measured_signal", "signal of the measurement", rtol=1e-7, atol=1e-9, config=s.describe(), request=kw)
        m.distinct(sig)
        return
    kw = gen.generic_params(rng, with_peaks=False)
    pk = gen.peaks(rng, kw["offset_mu_sens"], 0.02, n=int(rng.integers(1, 7))) if rng.random() < 0.8 else None
    if rng.random() < 0.1:
        kw["alpha_gate"] = np.array([0, 0])
    kw["sensor_peak_function"] = pk[0] if pk is not None and len(pk) == 1 and rng.random() < 0.5 else pk
    sens = SensorGeneric(**kw)
    two = rng.random() < 0.5
    sh = gen.shape(rng, two, (2, 30), (1, 60))
    occ = gen.u(rng, 0, 4, sh + (2,))
    if rng.random() < 0.3:
        occ = np.rint(occ)
        if rng.random() < 0.5:
            occ = occ.astype(int)
    v1, v2 = gen.u(rng, -0.3, 0.3, 2), gen.u(rng, -0.3, 0.3, 2)
    if not two and rng.random() < 0.5:
        v1[:] = v1[0]
    elif not two and rng.random() < 0.5:
        v2[:] = v2[0]
    w = dict(sensor={k: repr(x) for k, x in kw.items()}, shape=sh, g1=v1, g2=v2)
    occ = gen.layout(rng, occ, 0.3, True)
    before = occ.copy(), v1.copy(), v2.copy()
    mu = sens.sensor_potential(occ, v1, v2)
    g = ref.grid(v1, v2, [sh[1], sh[0]] if two else [sh[0]])
    exp = kw["offset_mu_sens"] + occ @ kw["alpha_dot"] + g @ kw["alpha_gate"]
    m.close(mu, exp, "potential", "potential", atol=1e-12, **w)
    mu = gen.layout(rng, np.asarray(mu), 0.3, True)
    mu_in = mu.copy()
    r = sens.sensor_response(mu)
    m.close(r, response(pk, mu), "response" if pk else "no_peaks", "response", atol=1e-12, **w)
    m.check(np.array_equal(mu, mu_in) and all(np.array_equal(a, b) for a, b in zip(before, (occ, v1, v2))), "inputs_unmodified",
            "arguments were modified", **w)
    if pk is not None:
        for p in pk:
            one = p.sensor_function(mu)
            m.close(one, ref.peak_value(p, mu), "peak_formula", repr(p), atol=1e-13, **w)
            if p.height > 0:
                m.check(p.sensor_function(np.array([p.mu0]))[0] >= one.max() - 1e-12, "maximum_at_mu0", repr(p), **w)
        # half of the height at gamma resp. sigma*sqrt(ln 2), symmetric
        p = pk[0]
        hw = p.gamma if isinstance(p, SensorPeakLorentzian) else p.sigma * np.sqrt(np.log(2))
        f = p.sensor_function(np.array([p.mu0 - hw, p.mu0 + hw, p.mu0, p.mu0 + 1e9 * hw]))
        m.close(f, [p.offset + p.height / 2, p.offset + p.height / 2, p.offset + p.height, p.offset], "peak_formula",
                f"characteristic points of {p!r}", atol=1e-9 * abs(p.height) + 1e-12, **w)
        # order of the peaks, list versus sum of single sensors, elementwise evaluation
        perm = [pk[j] for j in rng.permutation(len(pk))]
        m.close(SensorGeneric(**dict(kw, sensor_peak_function=perm)).sensor_response(mu), r, "peak_order", "order of peaks", atol=1e-11, **w)
        m.close(sum(SensorGeneric(**dict(kw, sensor_peak_function=p)).sensor_response(mu) for p in pk), r, "peak_order",
                "sum of single peaks", atol=1e-11, **w)
    flat = rng.permutation(mu.size)
    m.close(sens.sensor_response(mu.ravel()[flat]), r.ravel()[flat], "elementwise", "elementwise response", atol=1e-13, **w)
    # setters replace the parameters completely
    kw2 = gen.generic_params(rng)
    for k, x in kw2.items():
        setattr(sens, k, x)
    mu2 = sens.sensor_potential(occ, v1, v2)
    m.close(mu2, kw2["offset_mu_sens"] + occ @ kw2["alpha_dot"] + g @ kw2["alpha_gate"], "potential", "potential after setters", atol=1e-12, **w)
    m.close(sens.sensor_response(mu2), response(kw2["sensor_peak_function"], mu2), "response", "response after setters", atol=1e-12, **w)
    # peak parameters are settable as well
    p = SensorPeakGaussian() if rng.random() < 0.5 else SensorPeakLorentzian()
    attrs = ("mu0", "sigma", "height", "offset") if isinstance(p, SensorPeakGaussian) else ("mu0", "gamma", "height", "offset")
    vals = dict(zip(attrs, (float(gen.u(rng, -1, 1)), float(gen.u(rng, 0.1, 1)), float(gen.u(rng, 0.1, 1)), float(gen.u(rng, -1, 1)))))
    for k in attrs:
        setattr(p, k, vals[k])
    x = gen.u(rng, -2, 2, 20)
    m.check(all(getattr(p, k) == v for k, v in vals.items()), "peak_formula", "attributes read back", **w)
    m.close(p.sensor_function(x), type(p)(**vals).sensor_function(x), "peak_formula", "peak changed by attributes", **w)
    m.close(p.sensor_function(x), ref.peak_value(p, x), "peak_formula", "peak changed by attributes", **w)
    # the kind of number (integers, single values, lists of peaks as tuple) does not matter
    k = rng.integers(-9, 10, sh)
    big = [type(p)(mu0=float(gen.u(rng, -5, 5)), height=float(gen.u(rng, 0.1, 1)), offset=float(gen.u(rng, -1, 1))) for p in (pk or [SensorPeakGaussian()])]
    bs = SensorGeneric(**dict(kw, sensor_peak_function=big))
    m.close(bs.sensor_response(k), response(big, k.astype(float)), "number_formats", "response to whole numbers", atol=1e-12, peaks=[repr(p) for p in big], potential=k)
    if np.ptp(mu) > 0:
        m.distinct(mu)
    m.sample(**w)
