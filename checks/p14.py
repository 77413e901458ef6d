"""P14: seeded randomness is reproducible and confined to the given generator."""
import copy
import random

import numpy as np

from vmon import gen
from vmon.sims import Setup

PID = "P14"
TITLE = "Seeded randomness is reproducible and confined to the given generator"
RULE = ("random stacks of built-in distortions and samplers with seeded generators; measurement sequences are replayed with other "
        "global generator states and interleaved foreign simulations and draws, and with other seeds; global generator states are "
        "compared around every call; non-trivial = distinct noisy result")
ASSUMPTIONS = ["different seeds: at least one distortion of continuous noise is active"]
CASES = {"quick": 700, "thorough": 30000}
REQUIRED = {"replay_equal": 500, "global_state_untouched": 500, "seeds_differ": 150, "given_generator_used": 300, "sampler_replay": 300}


def stack(rng, s, seed, plan):
    """Distortions according to the plan, all generators derived from `seed`."""
    from simcats import distortions as D
    from simcats.support_functions import NormalSamplingRange, UniformSamplingRange
    g = np.random.SeedSequence(seed).spawn(len(plan) * 2)
    occ, pot, resp = [], [], []
    for k, (kind, par) in enumerate(plan):
        r = np.random.default_rng(g[2 * k])
        r2 = np.random.default_rng(g[2 * k + 1])
        par = dict(par)
        if par.pop("sampled", False):
            name = "scale" if "scale" in par else "sigma"
            v = par[name]
            par[name] = (UniformSamplingRange((0.5 * v, 1.5 * v), rng=r2) if k % 2 else
                         NormalSamplingRange((0.5 * v, 1.5 * v), std=0.3 * v, rng=r2))
        cls = getattr(D, kind)
        if "Blurring" not in kind:
            par["rng"] = r
        d = cls(**par)
        (occ if kind.startswith("Occupation") else pot if kind.startswith("SensorPotential") else resp).append(d)
    return occ, pot, resp


def make_plan(rng, s):
    span = s.span
    kinds = []
    for k in rng.permutation(7)[:int(rng.integers(1, 6))]:
        sm = bool(rng.random() < 0.4)
        ratio = float(rng.choice([0.5, 1, 1]))
        kinds.append([
            ("OccupationTransitionBlurringGaussian", dict(sigma=float(span * gen.u(rng, 0.005, 0.05)), sampled=sm)),
            ("OccupationTransitionBlurringFermiDirac", dict(sigma=float(span * gen.u(rng, 0.02, 0.08)), sampled=sm)),
            ("OccupationDotJumps", dict(scale=float(span * gen.u(rng, 0.1, 0.6)), lam=float(span * gen.u(rng, 0.01, 0.05)), axis=int(rng.integers(2)), ratio=ratio)),
            ("SensorPotentialPinkNoise", dict(sigma=1e-3, sampled=sm)),
            ("SensorPotentialRTN", dict(scale=float(span * gen.u(rng, 0.05, 1)), std=1e-3, height=1e-3, ratio=ratio)),
            ("SensorResponseWhiteNoise", dict(sigma=1e-2, sampled=sm)),
            ("SensorResponseRTN", dict(scale=float(span * gen.u(rng, 0.05, 1)), std=1e-2, height=1e-2, ratio=ratio))][k])
    return kinds


def global_state():
    a = np.random.get_state()
    return repr(random.getstate()), a[1].tobytes(), a[2:]


def run_case(m, rng, i):
    s = Setup(rng, res=(8, 25))
    plan = make_plan(rng, s)
    seed = int(rng.integers(1 << 40))
    reqs = []
    for _ in range(3):
        if s.kind == "scan" and rng.random() < 0.5:
            reqs.append((True, s.scan_request(hi=12)))
        else:
            reqs.append((False, s.request(two_d=True if rng.random() < 0.7 else None, n=int(rng.integers(5, 15)))[0]))
    w = dict(config=s.describe(), plan=plan, requests=reqs)

    def build(sd):
        o, p, r = stack(rng, s, sd, plan)
        return s.sim(occupation_distortions=o or None, sensor_potential_distortions=p or None, sensor_response_distortions=r or None)

    def one(sim, q):
        return (sim.measure_sensor_scan if q[0] else sim.measure)(**copy.deepcopy(q[1]))[:3]
    sim = build(seed)
    st = global_state()
    ra = [one(sim, q) for q in reqs]
    m.check(global_state() == st, "global_state_untouched", "a measurement drew from the global generators", **w)
    # replay with other global states, interleaved draws and an interleaved foreign simulation
    sim2, foreign = build(seed), build(seed + 1)
    np.random.seed(int(rng.integers(1 << 31)))
    random.seed(int(rng.integers(1 << 31)))
    rb = []
    for q in reqs:
        np.random.random(int(rng.integers(1, 9)))
        random.random()
        one(foreign, reqs[int(rng.integers(3))])
        rb.append(one(sim2, q))
    m.check(all(np.array_equal(x, y) for a, b in zip(ra, rb) for x, y in zip(a, b)), "replay_equal", "same seeds give different results", **w)
    # other seeds
    if any(k == "SensorResponseWhiteNoise" for k, p in plan):
        rc = one(build(seed + 7), reqs[0])
        m.check(not np.array_equal(rc[0], ra[0][0]), "seeds_differ", "different seeds give the same noise", **w)
    m.distinct(*[x[0] for x in ra])
    m.sample(**w)
    direct(m, rng, s, seed, **w)
    samplers(m, rng)


def direct(m, rng, s, seed, **w):
    """Components called directly: an active noise component advances exactly the generator it was given."""
    o, p, r = stack(rng, s, seed, w["plan"])
    a, b = np.array([-0.2, -0.1]), np.array([-0.2, -0.1])
    for d in o + p + r:
        if not hasattr(d, "rng"):
            continue
        st, before = global_state(), repr(d.rng.bit_generator.state)
        g = d.rng
        if type(d).__name__.startswith("Occupation"):
            d.noise_function(np.zeros((9, 9, 2)), np.zeros((9, 9)), a, b, None)
        else:
            d.noise_function(np.zeros(gen.shape(rng, True, (9, 10), None)), a, b)
        m.check(global_state() == st, "global_state_untouched", f"{type(d).__name__} drew from the global generators", **w)
        m.check(d.rng is g and repr(d.rng.bit_generator.state) != before, "given_generator_used",
                f"{type(d).__name__} did not draw from the generator it was given", **w)


def samplers(m, rng):
    from simcats.support_functions import (ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange, UniformSamplingRange)
    for cls in (NormalSamplingRange, UniformSamplingRange, LogNormalSamplingRange, ExponentialSamplingRange):
        sd = int(rng.integers(1 << 31))
        rg = (2.0, 1.0) if cls is ExponentialSamplingRange else (1.0, 2.0)
        kw = dict(sampling_range=0.5) if rng.random() < 0.5 else {}
        kw.update({NormalSamplingRange: dict(std=0.4), ExponentialSamplingRange: dict(scale=0.5)}.get(cls, {}))
        st = global_state()
        a = cls(rg, rng=np.random.default_rng(sd), **kw)
        x = [a.sample_parameter() for _ in range(5)]
        m.check(global_state() == st, "global_state_untouched", f"{cls.__name__} drew from the global generators")
        np.random.random()
        b = cls(rg, rng=np.random.default_rng(sd), **kw)
        other = cls(rg, rng=np.random.default_rng(sd + 1), **kw)
        y = []
        for _ in range(5):
            other.sample_parameter()
            y.append(b.sample_parameter())
        m.check(x == y, "sampler_replay", f"{cls.__name__}: {x} vs {y}")
        m.check(len(set(x)) > 1, "sampler_varies", f"{cls.__name__}: {x}")
