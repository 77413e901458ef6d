"""P36: scans do not depend on the units and origins of voltages, potentials and signals."""
import copy

import numpy as np
from scipy.ndimage import binary_dilation

from vmon import gen, ref, sims

PID = "P36"
TITLE = "Results do not depend on the units and origins of voltages, potentials and signals"
RULE = ("random simulations (diagrams, sensors, deformations, distortions with equal generator states) measured twice: as they are, and "
        "with every voltage, every potential and every signal of the configuration and of the request given in another unit (powers of "
        "two: everything is exact; factor 1000: up to rounding) or measured from another origin; occupations, masks, labels and signals "
        "of both have to be the same device; non-trivial = distinct pair with transitions or peaks in view")
ASSUMPTIONS = ["the signal of a sensor without peaks is a potential",
               "circular deformations mix voltages and potentials (listed finding of P25): with deformations both units change together",
               "exchanging the gates is exact for transitions of equal slopes only (interdot transitions follow the first one of a region)",
               "interdot transitions sharper than 1e-8 in the unit of the voltages are drawn as steps",
               "a pixel on a transition may flip by rounding: occupations, labels and masks may differ for at most 0.5 % of the pixels "
               "(powers of two) or 1 % (other units and origins)"]
CASES = {"quick": 3000, "thorough": 20000}
REQUIRED = {"occupations": 2000, "signal": 2000, "lead_labels": 2000, "scan_signal": 1000, "scan_labels": 1000, "scan_regimes": 1000,
            "with_distortions": 800, "repeated": 400, "translated": 500, "thousand": 250, "mirrored": 500}


def scale_peak(p, g, h):
    p.mu0 = p.mu0 * g
    p.height = p.height * h
    p.offset = p.offset * h
    if hasattr(p, "sigma"):
        p.sigma = p.sigma * g
    else:
        p.gamma = p.gamma * g


def scale_glf(b, g, h):
    b.growth_rate = b.growth_rate / g
    b.asymptote_left = b.asymptote_left * h
    b.asymptote_right = b.asymptote_right * h


def scale_barrier(b, g, h):
    if hasattr(b, "params"):
        q = np.array(b.params, dtype=float).reshape(-1, 7)
        q[:, :2] *= h
        q[:, 2] /= g
        q[:, 6] *= g
        b.params = tuple(float(x) for x in q.ravel())
        b.pinch_off, b.fully_conductive = b.pinch_off * g, b.fully_conductive * g
    else:
        scale_glf(b, g, h)
        b.offset = b.offset * g


def scale_sensor(s, f, g, h):
    """Sensor of the same device, with other units."""
    peaks = s.sensor_peak_function
    for p in ([] if peaks is None else peaks if isinstance(peaks, (list, tuple)) else [peaks]):
        scale_peak(p, g, h)
    s.alpha_dot = s.alpha_dot * g
    s.alpha_gate = s.alpha_gate * (g / f)
    s.offset_mu_sens = s.offset_mu_sens * g
    if hasattr(s, "barrier_functions"):
        s.alpha_sensor_gate = s.alpha_sensor_gate * (g / f)
        done = []
        for b in s.barrier_functions:
            if not any(b is d for d in done):
                scale_barrier(b, g, h)
                done.append(b)
        if s.final_rise is not None:
            scale_glf(s.final_rise, g, h)
            s.final_rise.mu0 = s.final_rise.mu0 * g
        for d in s.sensor_peak_deformations.values():
            if hasattr(d, "radius"):
                d.radius = d.radius * g


def scale_distortions(st, f, g, h):
    for d in st.occ or []:
        n = type(d).__name__
        if n == "OccupationDotJumps":
            d.scale, d.lam = d.scale * f, d.lam * f
        else:
            d.sigma = d.sigma * f
    for d, k in [(d, g) for d in st.pot or []] + [(d, h) for d in st.resp or []]:
        if hasattr(d, "sigma"):
            d.sigma = d.sigma * k
        else:
            d.scale, d.std, d.height = d.scale * f, d.std * k, d.height * k


def scale_ideal(ikw, f):
    out = dict(ikw)
    out["tct_params"] = [np.array(p, dtype=float) * np.array([f, f, 1, 1, f, f, f, f]) for p in ikw["tct_params"]]
    return out


def move_ideal(ikw, d):
    out = dict(ikw)
    e = ref.rot(np.asarray(d, dtype=float), -ikw["rotation"])
    out["tct_params"] = [np.array(p, dtype=float) + np.array([0, 0, 0, 0, e[0], e[1], e[0], e[1]]) for p in ikw["tct_params"]]
    return out


def mirror_ideal(ikw):
    """The diagram with the names of the gates and of the dots exchanged."""
    out = dict(ikw)
    out["rotation"] = -np.pi / 2 - ikw["rotation"]
    pars = []
    for k, p in enumerate(ikw["tct_params"]):
        ll, lr, s1, s2 = (float(v) for v in p[:4])
        period = np.array([ll + lr, lr * s2 + ll * s1]) * k
        left, right = np.array(p[4:6], dtype=float) + period, np.array(p[6:8], dtype=float) + period
        pars.append(np.array([lr, ll, -s2, -s1, -right[0], right[1], -left[0], left[1]]))
    out["tct_params"] = pars
    return out


def sharpest(st):
    """Width (in volts) of the distribution of the sharpest interdot transition (inf: no interdot coupling)."""
    gf = st.ikw["cdf_gamma_factor"] or 6.15
    wd = [np.hypot(*(np.array(p[6:8]) - np.array(p[4:6]))) for p in st.ikw["tct_params"]]
    return min([x for x in wd if x > 0], default=np.inf) / gf


def variant(rng, st, what):
    """(setup of the same device in other units or with another origin, f, g, h, d)."""
    other = copy.deepcopy(st)
    f = g = h = 1.0
    d = np.zeros(2)
    ds = np.zeros(2)
    scan = st.kind != "generic"
    if what == "mirror":
        other.ikw = mirror_ideal(st.ikw)
        other.sensor.alpha_gate = np.array(st.sensor.alpha_gate)[..., ::-1].copy()
        other.sensor.alpha_dot = np.array(st.sensor.alpha_dot)[..., ::-1].copy()
        for x in other.occ or []:
            if hasattr(x, "axis"):
                x.axis = 1 - x.axis
        return other, f, g, h, d, ds
    if what == "origin":
        d = gen.u(rng, -1, 1, 2) * float(np.exp(gen.u(rng, np.log(1e-3), np.log(3))))
        if rng.random() < 0.3:
            d[rng.integers(2)] = 0.0
        if scan and rng.random() < 0.7:
            ds = gen.u(rng, -1, 1, 2)
        other.ikw = move_ideal(st.ikw, d)
        a = np.asarray(st.sensor.alpha_gate, dtype=float)
        off = np.asarray(st.sensor.offset_mu_sens, dtype=float) - a @ d
        if scan:
            off = off - np.asarray(st.sensor.alpha_sensor_gate) @ ds
        other.sensor.offset_mu_sens = off if off.ndim else float(off)
        return other, f, g, h, d, ds
    if what == "thousand":
        f = float(rng.choice([1e3, 1e-3, 1.0]))
        g = float(rng.choice([1e3, 1e-3, 1.0]))
        h = float(rng.choice([1e3, 1e-3, 1.0]))
        if f == g == h == 1.0 or f < 1 and sharpest(st) * f < 1e-7:
            f = 1e3
    else:
        f, g, h = (2.0 ** int(rng.integers(lo, hi)) for lo, hi in ((-3, 13), (-6, 13), (-8, 9)))
        if rng.random() < 0.25:
            g = f
    if scan and len(st.sensor.sensor_peak_deformations):
        g = f
    if not scan and st.sensor.sensor_peak_function is None:
        h = g
    other.ikw = scale_ideal(st.ikw, f)
    scale_sensor(other.sensor, f, g, h)
    scale_distortions(other, f, g, h)
    return other, f, g, h, d, ds


NAMES = {"sweep_range_g1": "sweep_range_g2", "volt_g1": "volt_g2"}
NAMES.update({v: k for k, v in NAMES.items()})


def moved(kw, f, d, ds, what):
    out = {}
    if what == "mirror":
        for k, v in kw.items():
            out[NAMES.get(k, k)] = v
        if "sweep_range_g1" in kw and np.size(kw["resolution"]) == 2:
            out["resolution"] = np.array(kw["resolution"])[::-1].copy()
        return out
    for k, v in kw.items():
        o = ds if "sensor" in k else d
        if k == "resolution" or v is None:
            out[k] = v
        else:
            x = np.asarray(v, dtype=float) * f + o[0 if k.endswith("g1") else 1]
            out[k] = x if x.ndim else float(x)
    return out


def run_case(m, rng, i):
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
    what = ("two", "two", "origin", "mirror", "two", "thousand", "origin", "mirror")[i % 8]
    noisy = rng.random() < 0.45
    st = sims.Setup(rng, sensor=str(rng.choice(["generic", "scan"])), occ=None if noisy else 0, pot=None if noisy else 0,
                    resp=None if noisy else 0, res=(12, 60), decay=False if what == "mirror" else None)
    jumps = [x for x in st.occ or [] if type(x).__name__ == "OccupationDotJumps"]
    if len(jumps) > 2:              # every replay of a chained jump replays those before it
        st.occ = [x for x in st.occ if x is not jumps[0]]
    scan = st.kind != "generic"
    if scan and rng.random() < 0.3:
        n = len(st.sensor.sensor_peak_function)
        s = st.sensor
        from simcats.sensor import SensorScanSensorGeneric
        a0 = np.linalg.norm(s.alpha_sensor_gate[0])
        span = max(np.ptp(st.sw1), np.ptp(st.sw2))
        st.sensor = SensorScanSensorGeneric(
            barrier_functions=s.barrier_functions, sensor_peak_function=s.sensor_peak_function, alpha_sensor_gate=s.alpha_sensor_gate,
            alpha_gate=s.alpha_gate, alpha_dot=s.alpha_dot, offset_mu_sens=s.offset_mu_sens, final_rise=s.final_rise,
            sensor_peak_deformations={int(rng.integers(n)): SensorPeakDeformationLinear(angle=float(gen.u(rng, 0.6, 2.5)))
                                      if rng.random() < 0.5 else
                                      SensorPeakDeformationCircle(radius=float(a0 * span * gen.u(rng, 1, 5) * rng.choice([-1, 1])))})
    if scan and (st.s1 is None or st.s2 is None):
        # a missing sensor voltage is 0 V: the same for every unit, but not for every origin
        if what == "origin":
            st.s1, st.s2 = float(gen.u(rng, *st.sw1)), float(gen.u(rng, *st.sw2))
    if what == "mirror" and noisy and rng.random() < 0.3:
        st.occ = st.pot = st.resp = None        # 2D scans of noise differ: they are measured along the other gate
        noisy = False
    other, f, g, h, d, ds = variant(rng, st, what)
    a, b = st.sim(), other.sim()
    exact = what == "two"
    tol = 0.005 if exact else 0.01
    rt = 1e-7 if exact else 1e-5
    w = dict(what=what, f=f, g=g, h=h, d=d, ds=ds, **st.describe())
    steps = 2 if noisy and rng.random() < 0.6 else 1
    for k in range(steps):
        last = compare(m, st, a, b, st.request(False if what == "mirror" and noisy else None)[0] if k == 0 or rng.random() < 0.5 else last, f, g, h, d, ds, tol, rt, noisy, w, k)
    if scan:
        for k in range(1 if rng.random() < 0.7 else 2):
            compare_scan(m, rng, st, a, b, f, h, d, ds, tol, rt, noisy, w, g)


def share(x, y):
    """Share of the pixels that differ."""
    return float(np.mean(x != y)) if x.shape == y.shape else np.inf


def allowed(n, tol):
    return max(tol, 2.0 / n) + 1e-12


def near(x, y, scale, rt):
    """Values that agree up to rounding (share of those which do not)."""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return np.inf
    with np.errstate(invalid="ignore"):
        bad = ~(np.abs(x - y) <= rt * scale) & ~(np.isnan(x) & np.isnan(y))
    return float(np.mean(bad))


def extent(*xs):
    v = np.concatenate([np.ravel(x) for x in xs])
    v = v[np.isfinite(v)]
    return max(float(np.ptp(v)), 1e-3 * float(np.abs(v).max()), 1e-300) if v.size else 1.0


def compare(m, st, a, b, kw, f, g, h, d, ds, tol, rt, noisy, w, step):
    kb = moved(kw, f, d, ds, w["what"])
    ra, rb = a.measure(**kw), b.measure(**kb)
    n = np.asarray(ra[0]).size
    w = dict(w, request=kw, step=step)
    if w["what"] == "mirror":
        rb = [np.asarray(x) for x in rb[:3]]
        if rb[0].ndim == 2:
            rb = [rb[0].T, np.swapaxes(rb[1], 0, 1), rb[2].T]
        rb[1] = rb[1][..., ::-1]
        m.check(True, "mirrored")
    keep = np.ones(np.shape(ra[0]), bool)
    if w["what"] == "mirror" and keep.ndim == 2:
        # 2D scans: pixels next to a transition may be assigned to either side of it
        # (a steep line is off by one coarse pixel, i.e. by several pixels along the other, finer resolved gate)
        p1 = np.ptp(kw["sweep_range_g1"]) / max(keep.shape[1] - 1, 1)
        p2 = np.ptp(kw["sweep_range_g2"]) / max(keep.shape[0] - 1, 1)
        box = np.ones([2 * int(min(max(np.ceil(r), 1), 1000)) + 1 for r in (p1 / p2, p2 / p1)], bool)
        close = [binary_dilation(np.asarray(x) != 0, box) for x in (ra[2], rb[2])]
        far = int(((np.asarray(ra[2]) != 0) & ~close[1]).sum() + ((rb[2] != 0) & ~close[0]).sum())
        m.check(far <= 2, "mirrored_lines", f"{far} labelled pixels without a labelled pixel next to them", **w)
        keep = ~close[0]
        m.event("pixels_mirrored", int(keep.sum()))
        if not keep.any():
            return kw
        ra = [np.asarray(x)[keep] for x in ra[:3]]
        rb = [np.asarray(x)[keep] for x in rb[:3]]
        n = ra[0].size
    occ = near(ra[1], rb[1], 1.0, 1e-6)
    jumps = any(type(x).__name__ == "OccupationDotJumps" for x in st.occ or [])
    m.check(occ <= allowed(n, tol), "occupations", f"occupations differ for {occ:.2%} of the pixels", **w)
    lab = share(np.asarray(ra[2]), np.asarray(rb[2]))
    m.check(lab <= allowed(n, tol * (4 if jumps else 1)), "lead_labels", f"transition labels differ for {lab:.2%} of the pixels", **w)
    sig = near(np.asarray(ra[0]) * h, rb[0], extent(np.asarray(ra[0]) * h), 10 * rt)
    m.check(sig <= allowed(n, tol) * 3, "signal", f"signals differ for {sig:.2%} of the pixels", **w)
    if noisy:
        m.check(True, "with_distortions")
    if step:
        m.check(True, "repeated")
    if w["what"] == "origin":
        m.check(True, "translated")
    if w["what"] == "thousand":
        m.check(True, "thousand")
    if np.ptp(np.asarray(ra[1], dtype=float)) > 0:
        m.distinct(np.asarray(ra[1]).round(6), f, g, h)
    return kw


def compare_scan(m, rng, st, a, b, f, h, d, ds, tol, rt, noisy, w, g):
    kw = st.scan_request(hi=30)
    if w["what"] == "origin" and (kw["volt_g1"] is None or kw["volt_g2"] is None):
        kw["volt_g1"], kw["volt_g2"] = float(gen.u(rng, *st.w1)), float(gen.u(rng, *st.w2))
    kb = moved(kw, f, d, ds, w["what"])
    if w["what"] == "origin":
        kb["volt_g1"], kb["volt_g2"] = kw["volt_g1"] + d[0], kw["volt_g2"] + d[1]
    ra, rb = a.measure_sensor_scan(**kw), b.measure_sensor_scan(**kb)
    n = np.asarray(ra[0]).size
    w = dict(w, request=kw)
    sig = near(np.asarray(ra[0]) * h, rb[0], extent(np.asarray(ra[0]) * h), 10 * rt)
    m.check(sig <= allowed(n, tol), "scan_signal", f"sensor scans differ for {sig:.2%} of the pixels", **w)
    for j, name in ((1, "scan_regimes"), (2, "scan_labels")):
        lab = share(np.asarray(ra[j]), np.asarray(rb[j]))
        m.check(lab <= allowed(n, 2 * tol), name, f"{name} differ for {lab:.2%} of the pixels", **w)
