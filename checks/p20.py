"""P20: distortion lengths given in volts scale with the pixel pitch."""
import numpy as np

from vmon import gen, jumps, probes, stats

PID = "P20"
TITLE = "Distortion lengths given in volts scale with the pixel pitch"
RULE = ("measurements of a synthetic diagram with one distortion of a fixed length in volts at random resolutions, ranges, directions and "
        "dimensions; extents in volts are read off the data (second moment of a blurred edge, switching rates of bursts and blocks, jump "
        "heights) and compared per category; non-trivial = distinct scan")
ASSUMPTIONS = ["lengths are converted with resolution/range, i.e. up to one part in the number of pixels",
               "telegraph noise of a 2D scan uses the finer axis, of a diagonal 1D scan the larger range (as documented in the code)",
               "statistical monitors use 6 standard deviations over the aggregated run"]
CASES = {"quick": 2500, "thorough": 60000}
REQUIRED = {"blur_extent": 500, "burst_rate": 5, "block_rate": 5, "jump_height": 5, "sub_pixel_bursts": 50, "sub_pixel_blocks": 30}


class Edge(probes.ProbeCSD):
    """Diagram with a single step of both dots at the voltage coordinate c of the gate `axis`."""

    def __init__(self, axis, c):
        super().__init__()
        self.axis, self.c = axis, c

    def values(self, v1, v2):
        v = v1 if self.axis == 1 else v2
        s = (v > self.c).astype(float)
        return np.stack([s, 1 - s], -1), np.zeros(s.shape, dtype=np.uint8)


def run_case(m, rng, i):
    probes.take()
    [blur, rtn, jump][i % 3](m, rng)


def window(rng):
    w = float(np.exp(gen.u(rng, np.log(0.008), np.log(0.1))))
    h = w * float(np.exp(gen.u(rng, -1, 1) if rng.random() < 0.7 else gen.u(rng, -2.5, 2.5)))
    a, b = gen.u(rng, -0.4, 0.1, 2)
    return gen.flip(rng, np.array([a, a + w])), gen.flip(rng, np.array([b, b + h]))


def scan(rng, v1, v2, lo, hi, only=None):
    """(request, category)"""
    kind = str(only or rng.choice(["2d", "2d", "g1", "g2", "both"]))
    v1, v2 = v1.copy(), v2.copy()
    if kind == "2d":
        r = [int(x) for x in rng.integers(lo, hi, 2)]
        if rng.random() < 0.2:
            r[1] = r[0]
        return dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=np.array(r)), kind
    if kind == "g1":
        v2[:] = v2[0]
    elif kind == "g2":
        v1[:] = v1[0]
    return dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=int(rng.integers(2 * lo, 6 * hi))), kind


def blur(m, rng):
    from simcats import Simulation
    from simcats.distortions import OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian
    v1, v2 = window(rng)
    kw, kind = scan(rng, v1, v2, 30, 120)
    v1, v2 = kw["sweep_range_g1"], kw["sweep_range_g2"]
    axis = 0 if kind == "g2" else 1
    if kind == "both":
        # width along the sweep is given in volts of the finer sampled (smaller) range
        axis = 1 if abs(v1[1] - v1[0]) <= abs(v2[1] - v2[0]) else 0
    v = v1 if axis == 1 else v2
    ext = abs(v[1] - v[0])
    n = kw["resolution"][0] if kind == "2d" else kw["resolution"]
    sig = float(gen.u(rng, 0.03, 0.08)) * ext
    if sig * n / ext < 1:
        return
    fermi = rng.random() < 0.5
    cls = OccupationTransitionBlurringFermiDirac if fermi else OccupationTransitionBlurringGaussian
    c = v.min() + gen.u(rng, 0.4, 0.6) * ext
    sim = Simulation(ideal_csd_config=Edge(axis, c), sensor=probes.ProbeSensor(), occupation_distortions=[cls(sigma=sig)])
    _, o, _, _ = sim.measure(**kw)
    y = o[..., 0]
    y = y[y.shape[0] // 2] if kind == "2d" else y
    d = np.abs(np.diff(y))
    x = np.arange(len(d)) * ext / (n - 1)
    mu = (d * x).sum() / d.sum()
    got = np.sqrt((d * (x - mu) ** 2).sum() / d.sum())
    want = sig * (np.pi / np.sqrt(12) if fermi else 1.0)
    m.check(abs(got / want - 1) < 0.025 + 1.5 / n + (0.02 if fermi else 0), "blur_extent",
            f"edge of extent {got:.5f} V, expected {want:.5f} V", kind=kind, kw=kw, sigma=sig, fermi=fermi)
    m.event("blur_" + kind)
    m.distinct(y)


def rtn(m, rng):
    from simcats import Simulation
    from simcats.distortions import SensorPotentialRTN, SensorResponseRTN
    v1, v2 = window(rng)
    kw, kind = scan(rng, v1, v2, 8, 45)
    v1, v2 = kw["sweep_range_g1"], kw["sweep_range_g2"]
    e1, e2 = abs(v1[1] - v1[0]), abs(v2[1] - v2[0])
    if kind == "2d":
        r1, r2 = kw["resolution"]
        # volts per pixel of the finer axis
        ppv = max(r1 / e1, r2 / e2)
        cat = ("2d_fine_g1" if r1 / e1 > r2 / e2 else "2d_fine_g2") + ("_square" if r1 == r2 else "")
    else:
        ppv = kw["resolution"] / max(e1, e2)
        cat = kind
    short = rng.random() < 0.2
    scale = float(gen.u(rng, 0.1, 0.9) / ppv) if short else float(np.exp(gen.u(rng, np.log(0.0008), np.log(0.01))))
    if not short and scale * ppv < 1.05:
        return
    g = np.random.default_rng(int(rng.integers(1 << 40)))
    csd = probes.ProbeCSD()
    pot = rng.random() < 0.5
    d = (SensorPotentialRTN if pot else SensorResponseRTN)(scale=scale, std=0.2, height=5.0, rng=g)
    sim = Simulation(ideal_csd_config=csd, sensor=probes.ProbeSensor(), sensor_potential_distortions=[d] if pot else None,
                     sensor_response_distortions=None if pot else [d])
    c = sim.measure(**kw)[0]
    tr = probes.take()
    p = [t for t in tr if t["kind"] == "potential"][-1]["occ"] @ np.array([0.3, -0.7]) + 0.1
    z = ([t for t in tr if t["kind"] == "response"][-1]["x"] - p) if pot else c - (np.tanh(p) + 0.2)
    z = z.ravel()
    z[np.abs(z) < 1e-9] = 0
    sw = int((np.abs(np.diff(z)) > 1e-9).sum())
    if short:
        m.check(sw == z.size - 1, "sub_pixel_bursts", f"{sw} switches in {z.size} pixels for a sub-pixel burst length", kw=kw, scale=scale)
    else:
        m.put("burst:" + cat, (z.size - 1, 1 / (scale * ppv), sw))
    m.event("rtn_" + cat)
    m.distinct(z)
    m.sample(kind=cat, scale=scale, pixels_per_volt=ppv, switches=sw, pixels=z.size)


def jump(m, rng):
    from simcats import Simulation
    from simcats.distortions import OccupationDotJumps
    v1, v2 = window(rng)
    kw, kind = scan(rng, v1, v2, 12, 32)
    if kind != "2d":
        kw["resolution"] = int(rng.integers(30, 80))
    v1, v2 = kw["sweep_range_g1"], kw["sweep_range_g2"]
    axis = {"g1": 1, "g2": 0}.get(kind, int(rng.integers(2)))
    v = v1 if axis == 1 else v2
    ext = abs(v[1] - v[0])
    n = int(kw["resolution"][1 - axis] if kind == "2d" else kw["resolution"])
    short = rng.random() < 0.2
    px = float(gen.u(rng, 0.1, 0.9)) if short else float(np.exp(gen.u(rng, np.log(1.2), np.log(6))))
    lam = float(gen.u(rng, 6, 10))
    wide = rng.random() < 0.3
    if wide:                # jumps as wide as the scanned window or wider
        if kind == "2d":
            kw["resolution"] = rng.integers(8, 16, 2)
        else:
            kw["resolution"] = int(rng.integers(12, 30))
        n = int(kw["resolution"][1 - axis] if kind == "2d" else kw["resolution"])
        lam = float(gen.u(rng, 0.8, 2.0)) * n
    csd = probes.ProbeCSD(k=tuple(gen.u(rng, 1.5, 4, 4)))
    d = OccupationDotJumps(scale=px * ext / n, lam=lam * ext / n, axis=axis, rng=np.random.default_rng(int(rng.integers(1 << 40))))
    sim = Simulation(ideal_csd_config=csd, sensor=probes.ProbeSensor(), occupation_distortions=[d])
    _, o, l, _ = sim.measure(**kw)
    s = jumps.decode(csd.values, o, l, v1, v2, kw["resolution"], axis, int(40 + 3 * lam))
    s = jumps.ascending(s, v1, v2, axis)
    if not m.check((s >= 0).all(), "decodable", "a line does not show the diagram", kw=kw, axis=axis):
        return
    cat = f"{kind}_axis{axis}" if kind in ("2d", "both") else kind
    if kind == "2d" and kw["resolution"][0] == kw["resolution"][1]:
        cat += "_square"
    on = s > 0
    sw = int((on[1:] != on[:-1]).sum())
    if short:
        # blocks of one line: every other line is shifted (a jump of height zero is possible but rare)
        m.check(not on[::2].any() and on[1::2].mean() > 0.6, "sub_pixel_blocks", f"shifts {s[:12]} for a sub-pixel block length", kw=kw, axis=axis)
    else:
        m.put("block:" + cat, (n - 1, 1 / px, sw))
    first = np.nonzero(on & np.concatenate(([True], ~on[:-1])))[0]
    m.event("jumps_beyond_window", int((s[first] >= n).sum()))
    m.put(("wideheight:" if wide else "height:") + cat, [(s[k], lam) for k in first])
    m.event("jump_" + cat)
    m.distinct(s)


def finish(m):
    for k in sorted(m.data):
        what, cat = k.split(":")
        if what in ("burst", "block"):
            # probability of a zero jump height (exp(-lam) < 0.25 %) hides a few blocks
            t = m.data[k]
            n, sw = sum(x[0] for x in t), sum(x[2] for x in t)
            e = sum(x[0] * x[1] for x in t)
            v = sum(x[0] * x[1] * (1 - x[1]) for x in t)
            lo = e * (0.985 if what == "block" else 1.0) - stats.Z * np.sqrt(v)
            hi = e + stats.Z * np.sqrt(v)
            m.check(lo <= sw <= hi, what + "_rate", f"{cat}: {sw} switches in {n} pixels, expected {e:.0f} (+-{np.sqrt(v):.0f})")
            m.event(f"{what}_switches_{cat}", sw)
        elif what.endswith("height"):
            t = np.array([x for y in m.data[k] for x in y])
            s, lam = t[:, 0], t[:, 1]
            mu = lam / (1 - np.exp(-lam))
            z = (s - mu).sum() / np.sqrt(lam.sum())
            m.check(abs(z) < stats.Z, "jump_height", f"{cat}: mean jump height {s.mean():.2f} px, expected {mu.mean():.2f} px (z={z:.1f})")
