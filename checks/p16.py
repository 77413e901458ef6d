"""P16: random telegraph noise is piecewise constant bursts in scan order."""
import numpy as np

from vmon import gen, stats

PID = "P16"
TITLE = "Random telegraph noise is piecewise constant bursts in scan order"
RULE = ("random 1D/2D scans (all directions, gates, non-square), scales, heights and deviations; every output is decoded into segments "
        "which an online monitor judges; switching rates, segment lengths and heights are tested on the aggregate; non-trivial = "
        "distinct noise pattern")
ASSUMPTIONS = ["statistical monitors use 6 standard deviations over the aggregated run"]
CASES = {"quick": 3000, "thorough": 120000}
REQUIRED = {"segments_alternate": 1000, "starts_without_offset": 1000, "input_untouched": 3000, "data_independent": 500,
            "scale_zero": 100, "one_pixel_bursts": 100, "never_repeats": 3, "switch_rate": 4, "height_distribution": 3, "length_distribution": 2}


def window(rng):
    w, h = gen.u(rng, 0.005, 0.08), gen.u(rng, 0.005, 0.08)
    a, b = gen.u(rng, -0.4, 0.2, 2)
    return gen.flip(rng, np.array([a, a + w])), gen.flip(rng, np.array([b, b + h]))


def decode(d, tol):
    """Segments (value, length) of a flattened offset signal."""
    cut = np.nonzero(np.abs(np.diff(d)) > tol)[0] + 1
    return [(float(s[0]), len(s), float(np.ptp(s))) for s in np.split(d, cut)]


def history(m, rng):
    """Many measurements with one object: no pattern of bursts comes back."""
    from simcats.distortions import SensorPotentialRTN, SensorResponseRTN
    cls = SensorPotentialRTN if rng.random() < 0.5 else SensorResponseRTN
    d = cls(scale=0.05, std=1.0, height=0.5, rng=np.random.default_rng(int(rng.integers(1 << 40))))
    v, n = np.array([0.0, 1.0]), 2500
    pats = [p.tobytes() for p in (np.asarray(d.noise_function(np.zeros(60), v, v)) for _ in range(n)) if p.any()]
    m.check(len(set(pats)) == len(pats) > n // 2, "never_repeats", f"{len(pats)} measurements with bursts show {len(set(pats))} different patterns")


def run_case(m, rng, i):
    if i % 1000 == 3:
        history(m, rng)
    from simcats.distortions import SensorPotentialRTN, SensorResponseRTN
    v1, v2 = window(rng)
    cls = SensorPotentialRTN if rng.random() < 0.5 else SensorResponseRTN
    dim = ["2d", "2dsq", "g1", "g2", "both"][i % 5]
    if dim.startswith("2d"):
        shape = (int(rng.integers(5, 45)), int(rng.integers(5, 45)))
        if dim == "2dsq":
            shape = (shape[0], shape[0])
        e1, e2 = abs(v1[1] - v1[0]), abs(v2[1] - v2[0])
        ppv = max(shape[1] / e1, shape[0] / e2)
        if rng.random() < 0.15:         # one of the two gates does not move: only the other one has a pixel pitch
            if rng.random() < 0.5:
                dim, ppv = "2dfix1", shape[0] / e2
                v1[:] = v1[0]
            else:
                dim, ppv = "2dfix2", shape[1] / e1
                v2[:] = v2[0]
    else:
        shape = (int(rng.integers(30, 1200)),)
        if dim == "g1":
            v2[:] = v2[0]
        elif dim == "g2":
            v1[:] = v1[0]
        ppv = shape[0] / max(abs(v1[1] - v1[0]), abs(v2[1] - v2[0]))
    large = i % 250 == 7
    if large:                   # a scan as large as they are used in practice
        dim = ["2d", "2dsq", "g1"][(i // 250) % 3]
        v1, v2 = window(rng)
        if dim == "g1":
            v2[:] = v2[0]
            shape = (int(rng.integers(20000, 45000)),)
        else:
            shape = (int(rng.integers(150, 220)), int(rng.integers(150, 220)))
            shape = (shape[0], shape[0]) if dim == "2dsq" else shape
        ppv = max(shape[-1] / max(abs(v1[1] - v1[0]), 1e-9), 0 if dim == "g1" else shape[0] / abs(v2[1] - v2[0]))
    mode = rng.choice(["short", "random", "fixed"]) if large else rng.choice(["random", "random", "random", "short", "zero", "fixed"])
    px = float({"short": gen.u(rng, 0.05, 0.95), "zero": 0.0}.get(str(mode), np.exp(gen.u(rng, np.log(1.3), np.log(30)))))
    std = 0.0 if mode == "fixed" else float(np.exp(gen.u(rng, np.log(0.05), np.log(2))))
    height = float(gen.u(rng, 0.5, 3) * rng.choice([-1, 1])) if mode == "fixed" or rng.random() < 0.8 else 0.0
    seed = int(rng.integers(1 << 40))
    mk = lambda: cls(scale=px / ppv, std=std, height=height, rng=np.random.default_rng(seed))  # noqa
    amp = float(rng.choice([0, 1e-3, 1, 10]))
    x = gen.layout(rng, amp * rng.normal(size=shape), read_only=True)
    keep, k1, k2 = x.copy(), v1.copy(), v2.copy()
    y = np.asarray(mk().noise_function(x, v1, v2))
    w = dict(dim=dim, shape=shape, scale_px=px, std=std, height=height, g1=v1, g2=v2)
    m.check(np.array_equal(x, keep) and np.array_equal(v1, k1) and np.array_equal(v2, k2), "input_untouched", "input was modified", **w)
    if not m.check(y.shape == shape, "shape", f"{y.shape}", **w):
        return
    if px == 0:
        m.check(np.array_equal(y, keep), "scale_zero", "scale 0 changed the data", **w)
        return
    d = (y - keep).ravel()
    tol = 1e-9 * max(1, amp)
    z = np.asarray(mk().noise_function(np.zeros(shape), v1, v2)).ravel()
    m.check(np.allclose(z, d, rtol=0, atol=tol), "data_independent", "the added offsets depend on the data", **w)
    segs = decode(z, 1e-13)
    m.check(z[0] == 0, "starts_without_offset", f"first pixel has offset {z[0]}", **w)
    m.check(all(s[2] <= 1e-12 for s in segs), "segments_constant", "segment is not constant", **w)
    # neighbouring segments: exactly one of them without offset (two different offsets never touch)
    m.check(all((a[0] == 0) != (b[0] == 0) for a, b in zip(segs, segs[1:])), "segments_alternate",
            "bursts are not separated by segments without offset", segments=[s[:2] for s in segs[:8]], **w)
    if std == 0:
        m.check(all(s[0] == 0 or abs(s[0] - height) < 1e-12 for s in segs), "fixed_height", "burst of wrong height", **w)
    else:
        vals = [s[0] for s in segs if s[0] != 0]
        m.check(len(set(vals)) == len(vals), "independent_heights", "two bursts have the same random height", **w)
        m.put("h", [(v - height) / std for v in vals[:40]])
        if len(vals) > 100:
            m.put("h_late", [(v - height) / std for v in vals[-40:]])
    if px < 1:
        # alternate pixel by pixel
        if std > 0 or height != 0:
            m.check(len(segs) == z.size, "one_pixel_bursts", f"{len(segs)} segments for {z.size} pixels of a sub-pixel scale", **w)
    else:
        m.put("rate:" + dim, (z.size - 1, 1 / px, len(segs) - 1))
        off = sum(s[1] - 1 for s in segs if s[0] == 0)
        m.put("rate_low", _stay(segs, px, True))
        m.put("rate_high", _stay(segs, px, False))
        m.put("short", _len1(segs, px))
        if std > 0 or height != 0:
            for name, k in (("last pixel", z.size - 1), ("second last pixel", z.size - 2), ("middle pixel", z.size // 2), ("third pixel", 2)):
                m.put("in_burst:" + name, (1, (1 - (1 - 2 / px) ** k) / 2, int(z[k] != 0)))
        m.put("long", _longer(segs, px))
        m.event("pixels_without_offset", off)
    m.event("segments", len(segs))
    m.event("large_scans", int(large))
    m.distinct(z)
    m.sample(**w, segments=[s[:2] for s in segs[:6]])


def _stay(segs, px, zero):
    """Switches while being in one of the two states: (opportunities, probability, switches)."""
    n = sum(s[1] for s in segs[:-1] if (s[0] == 0) == zero)
    k = sum(1 for s in segs[:-1] if (s[0] == 0) == zero)
    if (segs[-1][0] == 0) == zero:
        n += segs[-1][1] - 1
    return n, 1 / px, k


def _len1(segs, px):
    """Segments whose first boundary is observable that end after one pixel."""
    s = segs[:-1] if len(segs) > 1 else []
    tail = 1 if segs and segs[-1][1] > 1 else 0        # the last one is known to be longer than one pixel
    return len(s) + tail, 1 / px, sum(1 for x in s if x[1] == 1)


def _longer(segs, px):
    """Memorylessness: of the segments longer than one mean length, the fraction surviving one more pixel."""
    k = max(2, int(px))
    n = sum(1 for x in segs[:-1] if x[1] >= k) + (1 if segs[-1][1] > k else 0)
    return n, 1 / px, sum(1 for x in segs[:-1] if x[1] == k)


def finish(m):
    for name in sorted(m.data):
        if name.startswith("rate"):
            z, n = stats.binom_z(m.data[name])
            m.check(abs(z) < stats.Z, "switch_rate", f"{name}: burst lengths deviate from the configured scale (z={z:.1f}, {n:.0f} boundaries)")
        elif name.startswith("in_burst"):
            z, n = stats.binom_z(m.data[name])
            m.check(abs(z) < stats.Z, "share_of_bursts", f"{name[9:]}: how often it is part of a burst does not follow from the scale (z={z:.1f}, n={n:.0f})")
        elif name in ("short", "long"):
            z, n = stats.binom_z(m.data[name])
            m.check(abs(z) < stats.Z, "length_distribution", f"{name} segments are not geometrically distributed (z={z:.1f}, n={n:.0f})")
    for name in ("h", "h_late"):
        heights(m, name)


def heights(m, name):
    h = np.concatenate([np.array(x) for x in m.data.get(name, [[]])])
    if len(h) < 200:
        return
    m.event("burst_heights", len(h))
    zm, zv = h.mean() * np.sqrt(len(h)), (h.var() - 1) * np.sqrt(len(h) / 2)
    m.check(abs(zm) < stats.Z, "height_distribution", f"mean burst height is off (z={zm:.1f})")
    m.check(abs(zv) < stats.Z, "height_distribution", f"deviation of the burst heights is off (z={zv:.1f})")
    p = stats.ks(h[:200000], "norm")
    m.check(p > 1e-9, "height_distribution", f"burst heights are not normally distributed (p={p:.1e})")
