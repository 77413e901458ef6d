"""P26: parameter samplers respect range, distribution and last sample."""
import warnings

import numpy as np
from scipy import stats as st

from vmon import gen, stats

PID = "P26"
TITLE = "Parameter samplers respect range, distribution and last sample"
RULE = ("sequences drawn from the four samplers with random ranges, sub-ranges (also oversized), means, widths and seeds; range and last "
        "sample judged online for every draw, distribution judged over all draws; non-trivial = distinct sequence")
ASSUMPTIONS = ["at least about 1 % of the untruncated distribution lies in the range (the samplers draw until a value fits)",
               "statistical monitors alarm at p < 1e-9 only"]
CASES = {"quick": 2400, "thorough": 40000}
REQUIRED = {"in_total_range": 1000, "in_sub_range": 300, "last_sample": 1000, "reproducible": 1000, "oversized_falls_back": 80, "continuous": 1000,
            "independent_without_seed": 100, "distribution": 4, "sub_range_centre": 3}
N = 300


def run_case(m, rng, i):
    from simcats.support_functions import (ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange, UniformSamplingRange)
    kind = ("normal", "uniform", "lognormal", "exponential")[i % 4]
    cls = dict(normal=NormalSamplingRange, uniform=UniformSamplingRange, lognormal=LogNormalSamplingRange,
               exponential=ExponentialSamplingRange)[kind]
    scale = float(np.exp(gen.u(rng, np.log(1e-6), np.log(100))))
    if kind == "lognormal":
        scale = 1.0
        lo = float(gen.u(rng, 0.0, 1.5))
    else:
        lo = float(gen.u(rng, -2, 1)) * scale
    hi = lo + float(gen.u(rng, 0.5, 2)) * scale
    width = hi - lo
    mode = rng.choice(["total", "sub", "oversized"], p=[0.45, 0.42, 0.13])
    sub = None
    if mode == "sub":
        sub = float(width * gen.u(rng, 0.1, 0.98))
    elif mode == "oversized":
        sub = float(width * gen.u(rng, 1.001, 5))
    kw = {}
    if kind == "normal":
        kw["std"] = float(width * np.exp(gen.u(rng, np.log(0.05), np.log(2))))
        if rng.random() < 0.5 and mode != "sub":
            # the mean does not have to be the centre of the range
            kw["mean"] = float(gen.u(rng, lo, hi)) if rng.random() < 0.7 or not lo < 0 < hi else 0.0
        elif rng.random() < 0.4 and mode == "sub":
            kw["std"] = width * float(gen.u(rng, 0.5, 2))
            kw["mean"] = float(gen.u(rng, lo, hi))
        if mode != "sub" and rng.random() < 0.1:
            # most of the distribution is outside of the range (down to about 1 % inside)
            kw["std"] = width * float(gen.u(rng, 0.6, 1.2))
            k = float(gen.u(rng, 1, 2)) * kw["std"]
            kw["mean"] = lo - k if rng.random() < 0.5 else hi + k
    elif kind == "lognormal":
        kw["mean"], kw["sigma"] = float(gen.u(rng, -0.3, 0.3)), float(gen.u(rng, 0.5, 1.2))
        r = rng.random()
        if r < 0.4:
            # one or both of them omitted (documented defaults 0 and 1)
            for n in ("mean", "sigma"):
                if r < 0.2 or rng.random() < 0.5:
                    kw.pop(n)
    elif kind == "exponential":
        kw["scale"] = float(np.exp(gen.u(rng, np.log(0.05), np.log(3))))
    down = kind == "exponential" and rng.random() < 0.5
    total = (hi, lo) if down else (lo, hi)
    seed = int(rng.integers(2 ** 31))
    args = dict(total_range=total, sampling_range=sub, **kw)
    w = dict(sampler=cls.__name__, seed=seed, **args)

    def make(**k):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            s = cls(**args, **k)
        return s, [str(x.message) for x in rec]
    g = np.random.default_rng(seed)
    s, warned = make(rng=g)
    m.check(bool(warned) == (mode == "oversized"), "warns_if_oversized", f"warnings: {warned}", **w)
    m.check(s.last_sample() is None, "no_last_sample_yet", f"{s.last_sample()}", **w)
    xs = np.empty(N)
    ok = True
    for k in range(N):
        x = s.sample_parameter()
        xs[k] = x
        ok = ok and s.last_sample() == x
    m.check(ok and s.last_sample() == xs[-1], "last_sample", "last sample is not the value returned last", **w)
    m.check(len(np.unique(xs)) > N - 3, "continuous", f"only {len(np.unique(xs))} different values in {N} draws", **w)
    repr(s)
    m.check(s.last_sample() == xs[-1], "last_sample", "changed by printing", **w)
    m.check(xs.min() >= lo and xs.max() <= hi, "in_total_range", f"[{xs.min()}, {xs.max()}] outside of [{lo}, {hi}]", **w)
    s2, _ = make(rng=np.random.default_rng(seed))
    ys = np.array([s2.sample_parameter() for _ in range(N)])
    m.check(np.array_equal(xs, ys), "reproducible", "same seed, different samples", **w)
    m.check(not np.array_equal(g.random(5), np.random.default_rng(seed).random(5)), "uses_given_generator", "the given generator is not used", **w)
    if mode == "sub":
        m.check(np.ptp(xs) <= sub * (1 + 1e-9), "in_sub_range", f"samples spread over {np.ptp(xs)}, sub-range is {sub}", **w)
        if kind == "uniform":
            m.check(np.ptp(xs) > 0.9 * sub, "fills_sub_range", f"samples spread over {np.ptp(xs)} only, sub-range is {sub}", **w)
        mid = (xs.min() + xs.max()) / 2
        if kind == "normal" and "mean" not in kw and kw["std"] < 0.3 * sub:
            # centred in its own sub-range (compared over all samplers)
            m.put("centring", float((xs.mean() - mid) / kw["std"]))
        if kind == "uniform" or (kind == "normal" and "mean" not in kw and kw["std"] > 1.0 * sub):
            m.put("centre_" + kind, float((mid - (lo + sub / 2)) / (width - sub)) if sub < 0.8 * width else None)
        if kind == "exponential":
            # the first value of the range is the origin of the distribution: the median lies on its side
            m.put("origin", [int((xs < mid).mean() > 0.5) if not down else int((xs > mid).mean() > 0.5), kw["scale"]])
            # the origin is where the samples are densest: the outermost sample marks that end of the sub-range
            if sub < 0.8 * width:
                m.put("centre_exponential_" + ("down" if down else "up"), float(((hi - xs.max()) if down else (xs.min() - lo)) / (width - sub)))
        if kind == "lognormal" and sub < 0.3 * width:
            m.put("centre_lognormal", float((mid - (lo + sub / 2)) / (width - sub)))
    else:
        if mode == "oversized":
            d = st.kstest(cdf(kind, lo, hi, total, kw)(xs), "uniform").pvalue
            m.check(d > 1e-9, "oversized_falls_back", f"samples of the total range expected (p = {d})", **w)
        # (a p-value this small does not occur by chance, however many samplers are judged)
        d = st.kstest(cdf(kind, lo, hi, total, kw)(xs), "uniform").pvalue
        m.check(d > 1e-10, "distribution_case", f"samples do not follow the truncated distribution (p = {d})", **w)
        m.put("u_" + kind + ("_default" if kind == "lognormal" and len(kw) < 2 else ""), cdf(kind, lo, hi, total, kw)(xs[:60]).tolist())
    if rng.random() < 0.2:
        a, b = make()[0], make()[0]
        za, zb = [a.sample_parameter() for _ in range(5)], [b.sample_parameter() for _ in range(5)]
        m.check(za != zb, "independent_without_seed", "samplers without a generator return the same values", **w)
        m.check(lo <= min(za + zb) and max(za + zb) <= hi, "in_total_range", f"{za} {zb}", **w)
    m.event("draws", 2 * N)
    m.distinct(xs)
    m.sample(**w)


def cdf(kind, lo, hi, total, kw):
    """CDF of the truncated distribution."""
    if kind == "uniform":
        d = st.uniform(lo, hi - lo)
    elif kind == "normal":
        d = st.norm(kw.get("mean", (lo + hi) / 2), kw["std"])
    elif kind == "lognormal":
        d = st.lognorm(s=kw.get("sigma", 1.0), scale=np.exp(kw.get("mean", 0.0)))
    else:
        sc, wd, org = kw["scale"], hi - lo, total[0]
        return lambda x: (1 - np.exp(-np.abs(np.asarray(x) - org) / wd / sc)) / (1 - np.exp(-1 / sc))
    a, b = d.cdf(lo), d.cdf(hi)
    return lambda x: (d.cdf(np.asarray(x)) - a) / (b - a)


def finish(m):
    for kind in ("normal", "uniform", "lognormal", "lognormal_default", "exponential", "exponential_up", "exponential_down"):
        us = np.concatenate([np.asarray(x) for x in m.data.get("u_" + kind, [])] or [np.zeros(0)])
        if len(us) > 2000:
            p = stats.ks(us, "uniform")
            m.check(p > 1e-9, "distribution", f"{kind}: truncated distribution violated, p = {p}, n = {len(us)}")
            m.event("distribution_samples", len(us))
        cs = np.array([x for x in m.data.get("centre_" + kind, []) if x is not None], float)
        judge_centres(m, kind, cs)
    c = np.array(m.data.get("centring", []), float)
    if len(c) >= 15:
        z = c.mean() / (c.std() / np.sqrt(len(c)))
        m.check(abs(z) < 7, "centred", f"default mean is not the centre of the sub-range: z = {z}, n = {len(c)}")
    o = np.array(m.data.get("origin", []), float)
    if len(o) >= 20:
        m.check(o[:, 0].mean() > 0.9, "origin", f"exponential sub-ranges start at the wrong end ({o[:, 0].mean():.2f} of {len(o)})")


def judge_centres(m, kind, cs):
    if len(cs) >= 15:
        # the sub-range is placed uniformly in the total range
        p = st.kstest(np.clip(cs, 0, 1), "uniform").pvalue
        m.check(p > 1e-9, "sub_range_centre", f"{kind}: sub-ranges are not spread over the total range, p = {p}, n = {len(cs)}")
