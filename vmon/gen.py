"""Workload generators: random but valid configurations and requests (the domain of the properties)."""
import numpy as np

from . import ref
from .core import HarnessError, Skip


INTS = (np.int64, np.int32, np.uint8, np.int16)
LARGE = 0.012       # share of the scans with a practical size (about 100 x 100 pixels or a trace of about 10000 points)


def large(rng):
    return rng.random() < LARGE


def shape(rng, two_d, d2, d1):
    """Shape of a scan: mostly small, sometimes of practical size."""
    if large(rng):
        return tuple(int(x) for x in rng.integers(91, 135, 2)) if two_d else (int(rng.integers(8300, 11000)),)
    return tuple(int(x) for x in rng.integers(*d2, 2)) if two_d else (int(rng.integers(*d1)),)


def resolution(rng, two_d, d2, d1):
    """The same as resolution of a request."""
    sh = shape(rng, two_d, d2, d1)
    return list(sh) if two_d else sh[0]


def u(rng, lo, hi, size=None):
    return rng.uniform(lo, hi, size)


def layout(rng, x, p=0.4, read_only=False):
    """An array equal to x, with probability p stored in another way (column by column, strided, backwards, read-only)."""
    if rng.random() < p:
        k = rng.integers(3)
        if k == 0:
            x = np.array(x, order="F")
        elif k == 1:
            big = np.full([2 * n for n in x.shape], 7, x.dtype)
            v = big[tuple(slice(None, None, 2) for _ in x.shape)]
            v[...] = x
            x = v
        else:
            r = tuple(slice(None, None, -1) for _ in x.shape)
            x = np.ascontiguousarray(x[r])[r]
        if read_only and rng.random() < 0.3:
            x.setflags(write=False)
    return x


# ------------------------------------------------------------------------------------------ ideal diagrams
def tct_one(rng, zero_width=False):
    """Basic quantities of one transition (rotated space): slopes, lengths, bezier vector."""
    s1 = u(rng, 0.2, 0.55)
    s2 = -u(rng, 0.08, 0.44)
    len_l, len_r = u(rng, 0.010, 0.025), u(rng, 0.010, 0.025)
    return s1, s2, len_l, len_r


def tct_params(rng, n=None, zero_width=False, decay=None):
    """List of n transition parameter vectors describing ordered, non-crossing transitions."""
    for _ in range(200):
        k = int(n or rng.integers(2, 6))
        s1, s2, len_l, len_r = tct_one(rng)
        d1 = d2 = 1.0
        if decay if decay is not None else rng.random() < 0.5:
            d1, d2 = u(rng, 0.94, 1.0), u(rng, 0.94, 1.0)
        width = 0.0 if zero_width else float(np.exp(u(rng, np.log(4.3e-4), np.log(7e-3))))
        frac = 0.5 if rng.random() < 0.5 else u(rng, 0.06, 0.94)   # position of the apex between the outer anchors
        ang = u(rng, 0.58, 1.397)
        length = max(u(rng, 0.0026, 0.0099), width * 0.9)
        iv = ref.rot(np.array([1.0, s1]) / np.hypot(1, s1), ang) * length
        if (ref.rot(iv, -np.pi / 4) < -1e-12).any():
            continue
        p0 = np.array([u(rng, -0.04, 0.02), u(rng, -0.2, -0.12)])
        params, ok = [], True
        for j in range(k):
            a1, a2 = s1 * d1 ** j, s2 * d2 ** j
            if width == 0.0:
                left = right = p0
            else:
                left = p0
                t = a2 + frac * (a1 - a2)
                right = p0 + width * np.array([1.0, t]) / np.hypot(1, t)
            params.append(np.array([len_l, len_r, a1, a2, left[0], left[1], right[0], right[1]]))
            t = ref.TCT(params[-1], j + 1)
            if not (len_l >= 2.02 * t.dl and len_r >= 2.02 * t.dr and t.dl >= 0 and t.dr >= 0):
                ok = False
                break
            p0 = p0 + np.array([iv[0] - len_r, iv[1] - len_r * a2])
        if not ok:
            continue
        xs = np.linspace(p0[0] - 0.1, p0[0] + 0.1 + 0.06 * k, 1500)
        ys = [ref.TCT(p, j + 1)(xs) for j, p in enumerate(params)]
        if all((b - a).min() > 2e-4 for a, b in zip(ys, ys[1:])):
            return params
    raise HarnessError("no valid transition parameters found")


def ideal_kwargs(rng, n=None, lut=True, rotation=None, zero_width=None, cdf=None, decay=None):
    zw = (rng.random() < 0.08) if zero_width is None else zero_width
    kw = {"tct_params": tct_params(rng, n, zw, decay)}
    if rotation is None:
        rotation = -np.pi / 4 if rng.random() < 0.6 else -np.pi / 4 + u(rng, -0.12, 0.12)
    kw["rotation"] = float(rotation)
    if lut is True:
        kw["lut_entries"] = int(rng.choice([200, 500, 1000, 1500]))
    else:
        kw["lut_entries"] = lut
    kw["cdf_type"] = cdf or str(rng.choice(["sigmoid", "cauchy"]))
    kw["cdf_gamma_factor"] = None if rng.random() < 0.6 else float(u(rng, 1.5, 9))
    if kw["cdf_gamma_factor"] and rng.random() < 0.3:       # very soft and very sharp interdot transitions, whole numbers
        kw["cdf_gamma_factor"] = [float(u(rng, 0.15, 1)), 1, 4, float(u(rng, 9, 60))][rng.integers(4)]
    return kw


def flat(rng, share=0.3):
    """Kind of probe data: "" or one that invites shortcuts (no labels, nothing charged, whole numbers, nothing changes)."""
    return str(rng.choice(["labels", "empty", "integer", "constant"])) if rng.random() < share else ""


def csd_ref(kw):
    return ref.CSDRef(kw["tct_params"], kw["rotation"], kw["lut_entries"], kw["cdf_type"], kw["cdf_gamma_factor"])


def ideal(kw):
    from simcats.ideal_csd import IdealCSDGeometric
    return IdealCSDGeometric(**kw)


def window(rng, r, size=(0.008, 0.05), want_lines=True, clearance=1.2e-3, aspect=2.0, tries=200):
    """Ascending (range g1, range g2) below the last transition by at least `clearance`, preferably crossed by lines."""
    last = r.tcts[-1]
    best = None
    for _ in range(tries):
        w = float(np.exp(u(rng, np.log(size[0]), np.log(size[1]))))
        h = w * float(np.exp(u(rng, -np.log(aspect), np.log(aspect))))
        if h > size[1] * 1.5:
            continue
        # centre next to a transition in rotated space
        k = int(rng.integers(len(r.tcts) - 1))
        t = r.tcts[k]
        x = u(rng, t.c0[0] - 0.012, t.peak(t.n - 1)[0] + 0.012)
        y = float(t(np.array([x]))[0]) + u(rng, -0.004, 0.004)
        c = ref.rot(np.array([x, y]), r.rotation)
        v1 = np.array([c[0] - w * u(rng, 0.15, 0.85)] * 2)
        v2 = np.array([c[1] - h * u(rng, 0.15, 0.85)] * 2)
        v1[1] += w
        v2[1] += h
        g = ref.grid(v1, v2, [40, 40])
        m = r.margins(g)
        if m[-1].max() > -clearance:
            continue
        if not want_lines or len(np.unique(np.sum(np.cumprod(m >= 0, 0), 0))) > 1:
            return v1, v2
        best = (v1, v2)
    if best is None or want_lines:
        raise Skip("no window")
    return best


def resolution2(rng, v1, v2, lo=12, hi=70, aspect=2.5, elongated=0.25, r=None):
    """Resolution for a window; with a reference diagram, one whose pixels next to the last transition are clear of it."""
    for _ in range(4):
        res = _resolution2(rng, v1, v2, lo, hi, aspect, elongated)
        if r is None:
            return res
        d = np.hypot((v1[1] - v1[0]) / (res[0] - 1), (v2[1] - v2[0]) / (res[1] - 1))
        if r.margins(ref.grid(np.sort(v1), np.sort(v2), res))[-1].max() < -d:
            return res
    raise Skip("pixels as large as the distance to the last transition")


def _resolution2(rng, v1, v2, lo, hi, aspect, elongated):
    """Resolution [r1, r2] with a pitch of at least 1e-4 V: mostly limited pixel aspect ratio, sometimes very different
    numbers of rows and columns."""
    w, h = abs(v1[1] - v1[0]), abs(v2[1] - v2[0])
    if large(rng) and min(w, h) > 0.0095:
        return [int(rng.integers(91, min(135, v / 1e-4))) for v in (w, h)]
    if rng.random() < elongated:
        for _ in range(100):
            few, many = int(rng.integers(max(2, lo // 4), max(lo, 3) + 1)), int(rng.integers(hi, 2 * hi + hi // 2))
            r1, r2 = (few, many) if rng.random() < 0.5 else (many, few)
            p1, p2 = w / (r1 - 1), h / (r2 - 1)
            if min(p1, p2) > 1e-4 and max(p1, p2) < 2.5e-3:
                return [r1, r2]
    for _ in range(100):
        r1, r2 = int(rng.integers(lo, hi + 1)), int(rng.integers(lo, hi + 1))
        p1, p2 = w / (r1 - 1), h / (r2 - 1)
        if max(p1 / p2, p2 / p1) <= aspect and min(p1, p2) > 1e-4:
            return [r1, r2]
    r1 = int(np.clip(w / 2e-4, 5, hi))
    return [r1, int(np.clip(round(h / (w / (r1 - 1)) + 1), 3, 4 * hi))]


def line(rng, r, clearance=1.2e-3, size=(0.004, 0.05), kind=None):
    """1D sweep (ranges g1, g2): gate 1 only, gate 2 only, or both gates (diagonal or anti-diagonal)."""
    kind = kind or str(rng.choice(["g1", "g2", "diag", "anti"]))
    for _ in range(20):
        v1, v2 = window(rng, r, size=size, clearance=clearance)
        v1, v2 = v1.copy(), v2.copy()
        if kind == "g1":
            v2[:] = u(rng, *v2)
        elif kind == "g2":
            v1[:] = u(rng, *v1)
        elif kind == "anti":
            v2 = v2[::-1].copy()
        pts = ref.grid(v1, v2, 200)
        if len(np.unique(r.total(pts))) > 1 or rng.random() < 0.1:
            if rng.random() < 0.5:
                v1, v2 = v1[::-1].copy(), v2[::-1].copy()
            return v1, v2, kind
    raise Skip("no line")


def flip(rng, v):
    return v[::-1].copy() if rng.random() < 0.5 else v.copy()


def res_format(rng, res):
    """The same resolution in a random documented format."""
    if np.ndim(res) == 0 or len(res) == 1:
        n = int(res if np.ndim(res) == 0 else res[0])
        k = rng.integers(4)
        return [n, np.array([n]), [n], (n,)][k]
    k = rng.integers(3)
    return [np.array(res), list(res), tuple(res)][k]


def n1(rng, lo=8, hi=120, few=2):
    if large(rng):
        return int(rng.integers(8300, 11000))
    k = rng.random()
    if k < 0.2:
        return int(rng.integers(few, max(lo, few + 1)))
    if k < 0.27:
        return int(rng.integers(2 * hi, 5 * hi))
    return int(rng.integers(lo, hi + 1))


# ------------------------------------------------------------------------------------------ sensors
def peaks(rng, center, spread, n=None, positive=False):
    from simcats.sensor import SensorPeakGaussian, SensorPeakLorentzian
    n = int(n if n is not None else rng.integers(1, 6))
    mus = center + u(rng, -1, 1, n) * spread
    out = []
    for mu in mus:
        off = 0.0 if positive or rng.random() < 0.3 else float(u(rng, -0.3, 0.3))
        h = float(u(rng, 0.01, 0.2)) * (1 if positive or rng.random() < 0.8 else -1)
        wdt = float(spread * np.exp(u(rng, np.log(0.02), np.log(0.5))))
        if rng.random() < 0.5:
            out.append(SensorPeakGaussian(mu0=float(mu), sigma=wdt, height=h, offset=off))
        else:
            out.append(SensorPeakLorentzian(mu0=float(mu), gamma=wdt, height=h, offset=off))
    return out


def generic_params(rng, with_peaks=None):
    kw = dict(alpha_dot=-u(rng, 1e-4, 2e-3, 2), alpha_gate=u(rng, 0.02, 0.3, 2) * rng.choice([1, 1, 1, -1], 2),
              offset_mu_sens=float(u(rng, -0.1, 0.1)))
    cen = kw["offset_mu_sens"] + float(kw["alpha_gate"] @ np.array([-0.13, -0.13]))
    k = with_peaks if with_peaks is not None else rng.random() < 0.85
    kw["sensor_peak_function"] = peaks(rng, cen, 0.01) if k else None
    return kw


def generic(rng, **k):
    from simcats.sensor import SensorGeneric
    return SensorGeneric(**generic_params(rng, **k))


def barrier_params(rng, pos=None):
    g = float(np.exp(u(rng, np.log(15), np.log(80))))
    return dict(pinch_off_percentage=float(u(rng, 0.005, 0.05)), fully_conductive_percentage=float(u(rng, 0.85, 0.995)),
                asymptote_left=0.0, asymptote_right=float(np.exp(u(rng, np.log(0.3), np.log(20)))), growth_rate=g,
                asymmetry=float(u(rng, 0.2, 2.0)), shape_factor=float(u(rng, 0.3, 3.0)),
                denominator_offset=float(u(rng, 0.7, 1)) if rng.random() < 0.25 else 1.0, offset=float(pos if pos is not None else u(rng, -0.1, 0.1)))


def barrier(rng, pos=None):
    from simcats.sensor.barrier_function import BarrierFunctionGLF
    return BarrierFunctionGLF(**barrier_params(rng, pos))


def rise_params(rng, scale=1e-3):
    return dict(mu0=float(u(rng, -0.05, 0.05)) if rng.random() < 0.7 else 0.0, asymptote_left=0.0,
                asymptote_right=float(u(rng, 0.05, 0.4)), growth_rate=float(1 / scale * u(rng, 0.5, 3)),
                asymmetry=float(u(rng, 0.03, 1.5)), shape_factor=float(u(rng, 0.5, 3)),
                denominator_offset=float(u(rng, 0.9, 1)) if rng.random() < 0.25 else 1.0,
                fully_conductive_percentage=float(u(rng, 0.9, 0.999)))


def scan_sensor_parts(rng, rise=None, deform=False, peaks_none=False, n_peaks=None):
    """Everything needed to build a scan sensor, plus a suitable sensor window."""
    from simcats.sensor import SensorRiseGLF
    a = np.array([[u(rng, 0.05, 0.15), u(rng, 0.05, 0.15)],
                  [u(rng, 0.7, 1.2), u(rng, 0.0, 0.3)],
                  [u(rng, 0.0, 0.3), u(rng, 0.7, 1.2)]])
    off = u(rng, -0.05, 0.05, 3)
    b = (barrier(rng), barrier(rng))
    ad = -u(rng, 1e-4, 2e-3, (3, 2))
    ag = u(rng, 0.01, 0.15, (3, 2))
    kw = dict(barrier_functions=b, alpha_sensor_gate=a, alpha_gate=ag, alpha_dot=ad, offset_mu_sens=off)
    # sensor gate voltages where both barriers are around the middle between pinch-off and fully conductive
    base = ag @ np.array([-0.13, -0.13]) + off
    t = np.array([(bb.pinch_off + bb.fully_conductive) / 2 for bb in b]) - base[1:]
    c = np.linalg.solve(a[1:], t)
    span = max(abs(bb.fully_conductive - bb.pinch_off) for bb in b) * u(rng, 0.8, 2.0) + 0.02
    mid = float(a[0] @ c + base[0])
    spread = 0.1 * span
    kw["sensor_peak_function"] = None if peaks_none else peaks(rng, mid, spread, n_peaks, positive=True)
    kw["final_rise"] = SensorRiseGLF(**rise_params(rng, spread * 0.05)) if (rise if rise is not None else rng.random() < 0.5) \
        else None
    v1 = np.array([c[0] - span * u(rng, 0.4, 0.6), c[0] + span * u(rng, 0.4, 0.6)])
    v2 = np.array([c[1] - span * u(rng, 0.4, 0.6), c[1] + span * u(rng, 0.4, 0.6)])
    return kw, v1, v2


def scan_sensor(rng, **k):
    from simcats.sensor import SensorScanSensorGeneric
    kw, v1, v2 = scan_sensor_parts(rng, **k)
    return SensorScanSensorGeneric(**kw), v1, v2


def plunger_scan_sensor(rng):
    """Scan sensor for plunger sweeps (without final rise) and sensor gate voltages to use."""
    s, v1, v2 = scan_sensor(rng, rise=False)
    return s, float(u(rng, *v1)), float(u(rng, *v2))


# ------------------------------------------------------------------------------------------ distortions
def occ_distortions(rng, span, n=None, seeds=True, pitch=None, kinds=("blur", "fermi", "jumps")):
    """Random stack of occupation distortions for a window of extent `span` volts."""
    from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac,
                                     OccupationTransitionBlurringGaussian)
    out = []
    for _ in range(int(n if n is not None else rng.integers(0, 4))):
        k = rng.choice(list(kinds))
        if k == "blur":
            out.append(OccupationTransitionBlurringGaussian(float(span * np.exp(u(rng, np.log(0.002), np.log(0.1))))))
        elif k == "fermi":
            out.append(OccupationTransitionBlurringFermiDirac(float(span * u(rng, 0.03, 0.1))))
        else:
            out.append(OccupationDotJumps(scale=float(span * u(rng, 0.05, 1)), lam=float(span * u(rng, 0.01, 0.08)),
                                          axis=int(rng.integers(2)), ratio=float(rng.choice([0.5, 1, 1, 1])),
                                          rng=np.random.default_rng(int(rng.integers(2 ** 31)))))
    return out


def pot_distortions(rng, span, n=None):
    from simcats.distortions import SensorPotentialPinkNoise, SensorPotentialRTN
    out = []
    for _ in range(int(n if n is not None else rng.integers(0, 3))):
        g = np.random.default_rng(int(rng.integers(2 ** 31)))
        if rng.random() < 0.5:
            out.append(SensorPotentialPinkNoise(sigma=float(u(rng, 1e-6, 1e-4)), fmin=float(rng.choice([0, 0.01, 0.1])), rng=g))
        else:
            out.append(SensorPotentialRTN(scale=float(span * u(rng, 0.01, 2)), std=float(u(rng, 1e-6, 1e-4)),
                                          height=float(u(rng, -1e-4, 1e-4)), ratio=float(rng.choice([0.5, 1])), rng=g))
    return out


def resp_distortions(rng, span, n=None):
    from simcats.distortions import SensorResponseRTN, SensorResponseWhiteNoise
    out = []
    for _ in range(int(n if n is not None else rng.integers(0, 3))):
        g = np.random.default_rng(int(rng.integers(2 ** 31)))
        if rng.random() < 0.5:
            out.append(SensorResponseWhiteNoise(sigma=float(u(rng, 1e-4, 1e-2)), rng=g))
        else:
            out.append(SensorResponseRTN(scale=float(span * u(rng, 0.01, 2)), std=float(u(rng, 1e-3, 1e-2)),
                                         height=float(u(rng, -1e-2, 1e-2)), ratio=float(rng.choice([0.5, 1])), rng=g))
    return out
