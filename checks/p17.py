"""P17: white and pink noise are additive with the given strength and spectrum."""
import numpy as np

from vmon import gen, stats

PID = "P17"
TITLE = "White and pink noise are additive with the given strength and spectrum"
RULE = ("random shapes, strengths, cut-off frequencies and data; the added noise is separated from the data and judged: independence of the "
        "data, moments, distribution and correlations (white), averaged periodogram along the flattened scan (pink); non-trivial = "
        "distinct noise realisation")
ASSUMPTIONS = ["statistical monitors use 6 standard deviations (or 5 % of a spectral density) over the aggregated run"]
CASES = {"quick": 3000, "thorough": 100000}
REQUIRED = {"input_untouched": 2500, "data_independent": 2500, "zero_strength": 100, "strength_linear": 400, "white_moments": 2,
            "white_correlation": 3, "white_sums": 7, "white_distribution": 1, "pink_spectrum": 3, "pink_deviation": 1, "pink_gaussian": 1, "flattened": 300,
            "never_repeats": 8}
NPINK = 512


def run_case(m, rng, i):
    (white if i % 2 else pink)(m, rng)
    if i % 500 < 2:
        history(m, rng, "white" if i % 2 else "pink")


def common(m, rng, mk, sigma, shape, sig_par):
    """Returns the noise added to zeros after judging everything that holds for both kinds."""
    v1, v2 = gen.u(rng, -1, 0, 2), gen.u(rng, -1, 0, 2)
    amp = float(rng.choice([1e-3, 1, 30]))
    x = amp * rng.normal(size=shape)
    if rng.random() < 0.15:                # data of another type
        x = (x if amp < 30 else np.abs(x)).astype((gen.INTS + (np.float32,))[int(rng.integers(5))] if amp >= 1 else np.float32)
    x = gen.layout(rng, x, read_only=True)
    keep, k1, k2 = x.copy(), v1.copy(), v2.copy()
    y = np.asarray(mk(sigma).noise_function(x, v1, v2))
    w = dict(sigma=sigma, shape=shape, par=sig_par)
    m.check(np.array_equal(x, keep) and np.array_equal(v1, k1) and np.array_equal(v2, k2), "input_untouched", "input was modified", **w)
    if not m.check(y.shape == shape, "shape", f"{y.shape}", **w):
        return None
    z = np.asarray(mk(sigma).noise_function(np.zeros(shape), v2, v1))
    m.check(np.allclose(y - keep.astype(float), z, rtol=0, atol=1e-11 * (amp + sigma) * 10), "data_independent",
            "noise depends on the data or on the sweep ranges", **w)
    if rng.random() < 0.2:
        m.check(np.array_equal(np.asarray(mk(0).noise_function(keep.copy(), v1, v2)), keep), "zero_strength", "strength 0 adds noise", **w)
    if rng.random() < 0.3:
        f = float(gen.u(rng, 0.1, 5))
        m.check(np.allclose(mk(f * sigma).noise_function(np.zeros(shape), v1, v2), f * z, rtol=1e-9, atol=1e-15), "strength_linear",
                "noise is not proportional to its strength", **w)
    if len(shape) == 2:
        # pixel order: the same noise along the flattened scan, whatever the shape
        o = np.asarray(mk(sigma).noise_function(np.zeros(z.size), v1, v2))
        m.check(np.allclose(o, z.ravel(), rtol=1e-12, atol=0), "flattened", "noise does not follow the flattened scan", **w)
    # every pixel of the scan is noisy, whatever the number of pixels
    f = z.ravel()
    m.check(bool((f != 0).all()) and len(np.unique(f)) == f.size, "every_pixel_noisy",
            f"pixels without noise of their own: {np.nonzero(f == 0)[0][:5]}", pixels=f.size, **w)
    g = (f - f.mean()) / sigma
    kind = "white" if sig_par is None else "pink"
    for name, k in (("first", 0), ("second", 1), ("middle", f.size // 2), ("last_but_one", -2), ("last", -1)):
        m.put(f"edge:{kind}:{'odd' if f.size % 2 else 'even'}:{name}", (float(g[k]) ** 2, float(g.var())))
    m.distinct(z)
    m.sample(**w)
    return z


def white(m, rng):
    from simcats.distortions import SensorResponseWhiteNoise
    shape = gen.shape(rng, rng.random() < 0.6, (4, 30), (10, 600))
    seed = int(rng.integers(1 << 40))
    sigma = float(np.exp(gen.u(rng, np.log(1e-4), np.log(3))))
    z = common(m, rng, lambda s: SensorResponseWhiteNoise(sigma=s, rng=np.random.default_rng(seed)), sigma, shape, None)
    if z is None:
        return
    z = z / sigma
    m.put("w_sum", (z.size, z.sum(), (z ** 2).sum()))
    f = z.ravel()
    m.put("w_lag1", (f.size - 1, float(f[1:] @ f[:-1])))
    m.put("w_lag2", (f.size - 2, float(f[2:] @ f[:-2])))
    m.put("w_mean", f.sum() / np.sqrt(f.size))
    h = f.size // 2
    m.put("w_half", (f[:h].sum() - f[h:].sum()) / np.sqrt(f.size))
    q = f[:f.size // 4 * 4].reshape(4, -1)
    m.put("w_quarter", (q[0] + q[2] - q[1] - q[3]).sum() / np.sqrt(q.size))
    m.put("w_alternating", (f * (1 - 2 * (np.arange(f.size) % 2))).sum() / np.sqrt(f.size))
    m.put("w_power", ((f ** 2).sum() - f.size) / np.sqrt(2 * f.size))
    if z.ndim == 2:
        m.put("w_rows", ((z.sum(1) ** 2).mean() / z.shape[1] - 1) * np.sqrt(z.shape[0] / 2))
        m.put("w_columns", ((z.sum(0) ** 2).mean() / z.shape[0] - 1) * np.sqrt(z.shape[1] / 2))
        m.put("w_lagrow", ((z.shape[0] - 1) * z.shape[1], float((z[1:] * z[:-1]).sum())))
    m.put("w_ks", f[:60])


def history(m, rng, kind):
    """Many measurements with one object: no noise signal comes back."""
    from simcats.distortions import SensorPotentialPinkNoise, SensorResponseWhiteNoise
    g = np.random.default_rng(int(rng.integers(1 << 40)))
    d = SensorResponseWhiteNoise(sigma=1.0, rng=g) if kind == "white" else SensorPotentialPinkNoise(sigma=1.0, rng=g)
    n, v = 2500, np.array([0.0, 1.0])
    k = int(rng.integers(12, 20))
    seen = {np.asarray(d.noise_function(np.zeros(k), v, v)).tobytes() for _ in range(n)}
    m.check(len(seen) == n, "never_repeats", f"{n} measurements show {len(seen)} different {kind} noise signals")


def pink(m, rng):
    from simcats.distortions import SensorPotentialPinkNoise
    if rng.random() < 0.7:
        shape = [(NPINK,), (16, 32), (32, 16), (8, 64)][int(rng.integers(4))]
    else:
        shape = tuple(int(k) for k in rng.integers(4, 30, 2)) if rng.random() < 0.6 else (int(rng.integers(16, 900)),)
        if rng.random() < 0.04:
            shape = tuple(int(k) for k in rng.integers(150, 260, 2))
    seed = int(rng.integers(1 << 40))
    sigma = float(np.exp(gen.u(rng, np.log(1e-4), np.log(3))))
    fmin = float(rng.choice([0, 0, 10 / NPINK, 51 / NPINK, 154 / NPINK]))
    z = common(m, rng, lambda s: SensorPotentialPinkNoise(sigma=s, fmin=fmin, rng=np.random.default_rng(seed)), sigma, shape, fmin)
    if z is None or z.size != NPINK:
        return
    f = z.ravel() / sigma
    m.put(f"p_psd:{fmin}", np.abs(np.fft.rfft(f))[1:-1] ** 2 / NPINK)
    m.put("p_var", float(f.var()))
    m.put(f"p_head:{fmin}", [float(x) for x in np.round(f[:3], 7)])
    m.put("p_mid", float(f[NPINK // 2] - f[NPINK // 2 - 1]) if fmin == 0 else np.nan)


def finish(m):
    n, s, q = np.array(m.data["w_sum"]).sum(0)
    m.event("white_pixels", n)
    m.check(abs(s / np.sqrt(n)) < stats.Z, "white_moments", f"white noise has mean {s / n:.2e} deviations")
    m.check(abs((q / n - 1) * np.sqrt(n / 2)) < stats.Z, "white_moments", f"white noise has variance {q / n:.4f} of the configured one")
    for k in ("w_lag1", "w_lag2", "w_lagrow"):
        n, s = np.array(m.data[k]).sum(0)
        m.check(abs(s / np.sqrt(n)) < stats.Z, "white_correlation", f"{k}: neighbouring pixels are correlated ({s / n:.3f})")
    # sums over whole scans and parts of them are as random as those of independent pixels (white down to the frequency 0)
    for k in ("w_mean", "w_half", "w_quarter", "w_alternating", "w_power", "w_rows", "w_columns"):
        a = np.array(m.data[k])
        dev = (a ** 2 - 1)
        m.check(abs(dev.mean()) * np.sqrt(len(a)) < stats.Z * max(dev.std(), 1.4) + 0.02 * np.sqrt(len(a)), "white_sums",
                f"{k[2:]}: the deviation over {len(a)} scans is {np.sqrt((a ** 2).mean()):.3f} of that of independent pixels")
    p = stats.ks(np.concatenate(m.data["w_ks"])[:200000], "norm")
    m.check(p > 1e-9, "white_distribution", f"white noise is not normally distributed (p={p:.1e})")
    for k in sorted(x for x in m.data if x.startswith("edge:")):
        a = np.array(m.data[k])
        if len(a) < 60:
            continue
        r = a[:, 0] / a[:, 1].clip(1e-300)             # squared noise of this pixel relative to its scan
        z = (r.mean() - 1) * np.sqrt(len(r)) / max(r.std(), 1.0)
        m.check(abs(z) < stats.Z, "stationary", f"{k[5:]} pixel: noise of {r.mean():.3f} times the variance of the scan (z={z:.1f}, {len(r)} scans)")
    freq = np.fft.rfftfreq(NPINK)[1:-1]
    for k in sorted(x for x in m.data if x.startswith("p_psd")):
        fmin = float(k.split(":")[1])
        a = np.array(m.data[k])
        # normalised expectation: power 1/f, flat below fmin; total variance 1 (over the non-constant frequencies)
        expd = 1 / np.maximum(freq, max(fmin, 1 / NPINK))
        nyq = 1 / max(0.5, fmin)
        norm = NPINK / 2 * 1.0 / (expd.sum() + nyq * 0.25)
        r = a / (expd * norm)                                     # every entry exponentially distributed with mean 1
        worst = 0.0
        for b in np.array_split(np.arange(len(freq)), 16):
            x = r[:, b]
            dev = abs(x.mean() - 1) - 0.02
            worst = max(worst, dev * np.sqrt(x.size))
        m.check(worst < stats.Z, "pink_spectrum", f"fmin={fmin}: spectrum deviates from 1/f (z={worst:.1f}, {len(a)} realisations)")
        x = r[:, :4]
        m.check(abs(x.mean() - 1) * np.sqrt(x.size) < stats.Z + 0.02 * np.sqrt(x.size), "pink_spectrum", f"fmin={fmin}: low frequencies off: {x.mean():.2f}")
    for k in sorted(x for x in m.data if x.startswith("p_head")):
        a = np.array(m.data[k])
        m.check(len(np.unique(a, axis=0)) == len(a), "seeds_differ", f"{len(a)} generators give {len(np.unique(a, axis=0))} different noise signals")
    v = np.array(m.data["p_var"])
    m.check(abs(v.mean() - 1) < stats.Z * v.std() / np.sqrt(len(v)) + 0.01, "pink_deviation", f"pink noise has variance {v.mean():.3f} of the configured one")
    d = np.array(m.data["p_mid"])
    d = d[np.isfinite(d)]
    p = stats.ks((d - 0) / d.std(), "norm")
    m.check(p > 1e-7, "pink_gaussian", f"pink noise is not normally distributed (p={p:.1e})")
