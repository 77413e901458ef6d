"""P15: activation ratio and reported latest parameters are truthful."""
import copy

import numpy as np
from scipy.ndimage import gaussian_filter1d

from vmon import gen, probes
from vmon.core import HarnessError

PID = "P15"
TITLE = "Activation ratio and reported latest parameters are truthful"
RULE = ("series of measurements of simulations (smooth synthetic diagram, all sensor kinds) with dot jumps, telegraph noise of random ratio "
        "and sampled parameters; activation is read off the data and compared to `activated` and, aggregated over all cases, to the "
        "ratio; reported latest values are compared to the recorded draws and to the data; non-trivial = distinct activation history")
ASSUMPTIONS = ["statistical monitors use 6 standard deviations over the aggregated run",
               "burst/block lengths are far shorter and jumps far larger than a pixel, so an active distortion is visible in the data"]
CASES = {"quick": 900, "thorough": 24000}
REQUIRED = {"activated_truthful": 2500, "inactive_untouched": 800, "latest_is_draw": 400, "latest_describes_data": 300,
            "latest_after_replay": 60, "ratio_frequency": 4, "ratio_independence": 2}


class Rec:
    """Sampler that records its draws (shared across copies)."""
    DRAWS = {}

    def __init__(self, key, lo, hi, seed):
        self.key, self.lo, self.hi, self.rng = key, lo, hi, np.random.default_rng(seed)
        self.last = None

    def sample_parameter(self):
        self.last = float(self.rng.uniform(self.lo, self.hi)) if self.rng.random() < 0.8 else 0.0
        Rec.DRAWS.setdefault(self.key, []).append(self.last)
        return self.last

    def last_sample(self):
        return self.last


def run_case(m, rng, i):
    [dot_jumps, rtn_response, rtn_potentials, latest, latest, direct_rtn, chain][i % 7](m, rng)


RATIOS = [0.0, 0.2, 0.35, 0.5, 0.65, 0.8, 1.0]


def window(rng):
    w, h = gen.u(rng, 0.01, 0.06), gen.u(rng, 0.01, 0.06)
    a, b = gen.u(rng, -0.3, 0, 2)
    v1, v2 = np.array([a, a + w]), np.array([b, b + h])
    return gen.flip(rng, v1), gen.flip(rng, v2)


def note(m, name, r, acts):
    """acts: list of booleans (history); aggregated in finish."""
    m.put("freq:" + name, (r, len(acts), int(sum(acts))))
    same = sum(a == b for a, b in zip(acts, acts[1:]))
    m.put("pair:" + name, (r, max(len(acts) - 1, 0), same))


def make_sim(flat="", **kw):
    from simcats import Simulation
    return Simulation(ideal_csd_config=probes.ProbeCSD(k=(3.0, 1.0, 2.0, 5.0), flat=flat), **kw)


def dot_jumps(m, rng):
    from simcats.distortions import OccupationDotJumps
    probes.take()
    v1, v2 = window(rng)
    axis, r = int(rng.integers(2)), float(rng.choice(RATIOS))
    n = [int(x) for x in rng.integers(16, 26, 2)]
    two_d = rng.random() < 0.75
    ext = abs((v1 if axis == 1 else v2)[1] - (v1 if axis == 1 else v2)[0])
    d = OccupationDotJumps(scale=1.5 * ext / n[1 - axis] * 1.0, lam=8 * ext / n[1 - axis], axis=axis, ratio=r,
                           rng=np.random.default_rng(int(rng.integers(1 << 40))))
    flat = "labels" if rng.random() < 0.25 else ""      # (windows without transition labels)
    sim = make_sim(flat, sensor=probes.ProbeSensor(), occupation_distortions=[d])
    ideal = make_sim(flat, sensor=probes.ProbeSensor())
    if two_d:
        kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=np.array(n))
    else:
        kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=int(n[1 - axis]))
    _, o0, l0, _ = ideal.measure(**kw)
    acts = []
    for _ in range(8):
        _, o, l, _ = sim.measure(**kw)
        changed = not (np.allclose(o, o0, rtol=1e-12) and np.array_equal(l, l0))
        rep = sim.occupation_distortions[0].activated
        m.check(rep == changed, "activated_truthful", f"dot jumps: activated={rep}, data changed={changed}", ratio=r, axis=axis, kw=kw)
        if not rep:
            m.check(np.array_equal(o, o0) and np.array_equal(l, l0), "inactive_untouched", "inactive dot jumps changed the data")
        acts.append(changed)
    note(m, "jumps", r, acts)
    m.distinct("j", r, acts, float(v1[0]))
    m.sample(kind="dot jumps", ratio=r, history=acts)


def rtn_args(rng, v1, v2, npx):
    ext = max(abs(v1[1] - v1[0]), abs(v2[1] - v2[0]))
    return dict(scale=2 * ext / npx, std=0.1, height=float(rng.choice([-3, 3])))


def rtn_response(m, rng):
    from simcats.distortions import SensorResponseRTN
    probes.take()
    v1, v2 = window(rng)
    r = float(rng.choice(RATIOS))
    n = int(rng.integers(12, 20))
    d = SensorResponseRTN(**rtn_args(rng, v1, v2, n), ratio=r, rng=np.random.default_rng(int(rng.integers(1 << 40))))
    kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=np.array([n, n]) if rng.random() < 0.7 else 8 * n)
    sim = make_sim(sensor=probes.ProbeSensor(), sensor_response_distortions=[d])
    c0 = make_sim(sensor=probes.ProbeSensor()).measure(**kw)[0]
    acts = []
    for _ in range(8):
        c = sim.measure(**kw)[0]
        changed = not np.allclose(c, c0, rtol=1e-12)
        rep = sim.sensor_response_distortions[0].activated
        m.check(rep == changed, "activated_truthful", f"telegraph noise: activated={rep}, data changed={changed}", ratio=r, kw=kw)
        if not rep:
            m.check(np.array_equal(c, c0), "inactive_untouched", "inactive telegraph noise changed the data")
        acts.append(changed)
    note(m, "rtn", r, acts)
    m.distinct("r", r, acts, float(v1[0]))


def rtn_potentials(m, rng):
    """Scan sensor: the activation is decided anew for each of the three potentials."""
    from simcats.distortions import SensorPotentialRTN
    kw, s1, s2 = gen.scan_sensor_parts(rng, rise=False)
    r = float(rng.choice(RATIOS))
    n = int(rng.integers(8, 14))
    scan = rng.random() < 0.5
    v1, v2 = (gen.flip(rng, s1), gen.flip(rng, s2)) if scan else window(rng)
    d = SensorPotentialRTN(**rtn_args(rng, v1, v2, n), ratio=r, rng=np.random.default_rng(int(rng.integers(1 << 40))))
    sensor = probes.ProbeScan(**kw)
    sensor.dup = rng.random() < 0.3            # equal potentials of both barriers are still two potentials
    sim = make_sim(sensor=sensor, sensor_potential_distortions=[d])
    probes.take()
    acts = []
    for _ in range(5):
        if scan:
            sim.measure_sensor_scan(sweep_range_sensor_g1=v1, sweep_range_sensor_g2=v2, volt_g1=-0.1, volt_g2=-0.1,
                                    resolution=np.array([n, n + 1]))
        else:
            sim.measure(sweep_range_g1=v1, sweep_range_g2=v2, volt_sensor_g1=float(s1.mean()), volt_sensor_g2=float(s2.mean()),
                        resolution=np.array([n, n + 1]))
        tr = probes.take()
        x = [t["x"] for t in tr if t["kind"] == "response"][-1]
        p = [t for t in tr if t["kind"] == "potential"]
        if not p:
            raise HarnessError("no potential event")
        q = p[-1]
        probe = probes.ProbeScan(**kw)
        probe.dup = sensor.dup
        mu0 = probe.sensor_potential(q["occ"], q["g1"], q["g2"], q["s1"], q["s2"])
        probes.take()
        mu0, x = np.asarray(mu0, dtype=float), np.asarray(x, dtype=float)
        m.check(x.shape == mu0.shape and len(x) == 3, "three_potentials", f"{x.shape} {mu0.shape}")
        ch = [not np.allclose(x[k], mu0[k], rtol=1e-9, atol=1e-12) for k in range(3)]
        rep = sim.sensor_potential_distortions[0].activated
        m.check(rep == ch[2], "activated_truthful", f"potential telegraph noise: activated={rep}, changed potentials={ch}", ratio=r)
        for k in range(3):
            if not ch[k]:
                m.check(np.allclose(x[k], mu0[k], rtol=1e-13, atol=1e-15), "inactive_untouched", "inactive telegraph noise changed the potential")
        for j, k in ((0, 1), (0, 2), (1, 2)):
            if ch[j] and ch[k]:
                m.check(not np.array_equal(np.round(x[j] - mu0[j], 9), np.round(x[k] - mu0[k], 9)), "own_noise",
                        f"potentials {j} and {k} show the same telegraph noise", ratio=r)
        acts += ch
    note(m, "potentials", r, acts)
    m.distinct("p", r, acts, float(s1[0]))


def direct_rtn(m, rng):
    """Direct calls: ratio changed by the setter is used from then on."""
    from simcats.distortions import OccupationDotJumps, SensorResponseRTN
    v1, v2 = window(rng)
    g = np.random.default_rng(int(rng.integers(1 << 40)))
    n = 60
    if rng.random() < 0.5:
        d = SensorResponseRTN(**rtn_args(rng, v1, v2, n), ratio=float(rng.random()), rng=g)
        x = rng.normal(size=n)

        def call():
            y = d.noise_function(x.copy(), v1, v2)
            return not np.array_equal(x, y)
    else:
        d = OccupationDotJumps(scale=2 * abs(v1[1] - v1[0]) / n, lam=10 * abs(v1[1] - v1[0]) / n, axis=1, ratio=float(rng.random()), rng=g)
        x = np.arange(6.0 * n).reshape(3, n, 2)

        def call():
            o, _ = d.noise_function(x.copy(), np.zeros((3, n)), v1, v2, None)
            return not np.array_equal(o, x)
    m.check(d.activated is None, "latest_is_draw", f"activated before the first use: {d.activated}")
    call()
    r = float(rng.choice(RATIOS))
    d.ratio = r
    acts = []
    for _ in range(12):
        a = call()
        m.check(a == d.activated, "activated_truthful", f"activated={d.activated}, changed={a}", ratio=r)
        acts.append(a)
    note(m, "direct", r, acts)
    m.distinct("d", r, acts, float(v1[0]))


def chain(m, rng):
    """Several dot jumps and blurrings: replaying the earlier ones for the later ones leaves their reports as they were."""
    from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac,
                                     OccupationTransitionBlurringGaussian)
    probes.take()
    v1, v2 = window(rng)
    two_d = rng.random() < 0.75
    fixed = None if two_d or rng.random() < 0.5 else int(rng.integers(2))
    if fixed is not None:
        (v1, v2)[fixed][:] = (v1, v2)[fixed][0]
    n = [int(x) for x in rng.integers(10, 18, 2)]
    if not two_d:
        n = [n[0]]
    ds, want = [], []
    for _ in range(int(rng.integers(2, 4))):
        axis, r = int(rng.integers(2)), float(rng.choice([0.0, 1.0, 1.0, 1.0]))
        px = n[0] if len(n) == 1 else n[1 - axis]
        ext = abs((v1 if axis == 1 else v2)[1] - (v1 if axis == 1 else v2)[0]) or 0.01
        ds.append(OccupationDotJumps(scale=3 * ext / px, lam=float(rng.choice([0.3, 1, 3])) * ext / px, axis=axis, ratio=r,
                                     rng=np.random.default_rng(int(rng.integers(1 << 40)))))
        want.append(r == 1 and not (fixed is not None and fixed == 1 - axis))
    blurs = []
    for k in range(int(rng.integers(0, 3))):
        cls = (OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian)[rng.integers(2)]
        ext = (abs(v1[1] - v1[0]) or abs(v2[1] - v2[0])) * float(gen.u(rng, 0.02, 0.1))
        key = int(rng.integers(1 << 60))
        Rec.DRAWS[key] = []
        blurs.append((key, Rec(key, ext, 2 * ext, key) if rng.random() < 0.5 else ext))
        at = int(rng.integers(0, len(ds) + 1))
        ds.insert(at, cls(sigma=blurs[-1][1]))
        want.insert(at, blurs[-1])
    sim = make_sim("labels" if rng.random() < 0.2 else "", sensor=probes.ProbeSensor(), occupation_distortions=ds)
    for _ in range(3):
        for key, _s in blurs:
            Rec.DRAWS[key] = []
        sim.measure(sweep_range_g1=v1, sweep_range_g2=v2, resolution=np.array(n))
        for d, x in zip(sim.occupation_distortions, want):
            if isinstance(x, tuple):
                used = Rec.DRAWS[x[0]] if isinstance(x[1], Rec) else [x[1]]
                m.check(len(used) == 1 and d.latest_sigma == used[0], "latest_after_replay",
                        f"blurring replayed by later dot jumps reports {d.latest_sigma}, drawn {used}", g1=v1, g2=v2, resolution=n)
        rep = [x if isinstance(x, tuple) else d.activated for d, x in zip(sim.occupation_distortions, want)]
        m.check(rep == want, "activated_truthful", f"chained dot jumps: activated={rep}, expected {want}", kinds=[type(d).__name__ for d in ds], g1=v1,
                g2=v2, resolution=n)
    m.distinct("c", want, float(v1[0]))


def latest(m, rng):
    from simcats.distortions import (OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian,
                                     SensorPotentialPinkNoise, SensorResponseWhiteNoise)
    probes.take()
    v1, v2 = window(rng)
    n = 48
    key = int(rng.integers(1 << 60))
    Rec.DRAWS.clear()
    kind = int(rng.integers(4))
    sd = int(rng.integers(1 << 40))
    ext = abs(v1[1] - v1[0])
    sampled = rng.random() < 0.75
    lo, hi = [(0.02 * ext, 0.1 * ext), (0.03 * ext, 0.1 * ext), (0.1, 5), (0.1, 5)][kind]
    par = Rec(key, lo, hi, sd) if sampled else float(gen.u(rng, lo, hi))
    kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=np.array([n, 40]))
    sens = probes.ProbeSensor()
    if kind < 2:
        cls = [OccupationTransitionBlurringGaussian, OccupationTransitionBlurringFermiDirac][kind]
        sim = make_sim(sensor=sens, occupation_distortions=[cls(sigma=par)])
        get = lambda: sim.occupation_distortions[0]  # noqa
    elif kind == 2:
        sim = make_sim(sensor=sens, sensor_response_distortions=[SensorResponseWhiteNoise(sigma=par, rng=np.random.default_rng(sd))])
        get = lambda: sim.sensor_response_distortions[0]  # noqa
    else:
        sim = make_sim(sensor=sens, sensor_potential_distortions=[SensorPotentialPinkNoise(sigma=par, rng=np.random.default_rng(sd))])
        get = lambda: sim.sensor_potential_distortions[0]  # noqa
    c0, o0, _, _ = make_sim(sensor=sens).measure(**kw)
    m.check(not get().latest_sigma, "latest_is_draw", f"a latest value is reported before the first use: {get().latest_sigma}")
    for rep in range(4):
        if rep and rng.random() < 0.5:
            # the parameter changes during the series (switched off, another value, another sampler)
            par = [0.0, 0, float(gen.u(rng, lo, hi)), Rec(key, lo, hi, sd + rep)][rng.integers(4)]
            sampled = isinstance(par, Rec)
            get().sigma = par
        before = len(Rec.DRAWS.get(key, []))
        probes.take()
        c, o, _, _ = sim.measure(**kw)
        tr = probes.take()
        draws = Rec.DRAWS.get(key, [])[before:]
        want = draws[-1] if sampled else par
        if sampled:
            m.check(len(draws) == 1, "one_draw_per_measurement", f"{len(draws)} draws in one measurement")
        m.check(get().latest_sigma == want, "latest_is_draw", f"reported {get().latest_sigma}, used {want}")
        lat = get().latest_sigma
        if lat == 0:
            x = [t["x"] for t in tr if t["kind"] == "response"][-1]
            p = [t for t in tr if t["kind"] == "potential"][-1]["occ"] @ sens.alpha + 0.1
            m.check(np.array_equal(o, o0) and np.allclose(x, p, rtol=1e-12, atol=1e-12) and np.allclose(c, c0, rtol=1e-12), "zero_reported_is_zero",
                    "data changed by a distortion that reports a strength of zero")
        elif kind == 0:
            ref = np.stack([gaussian_filter1d(o0[..., k], lat * n / ext, axis=1) for k in range(2)], -1)
            m.check(np.abs(ref - o).max() < 2e-3, "latest_describes_data", f"max deviation {np.abs(ref - o).max()} for the reported width")
        elif kind == 2:
            s = np.std(c - c0)
            m.check(abs(s / lat - 1) < 0.12, "latest_describes_data", f"noise deviation {s}, reported {lat}")
        elif kind == 3:
            x = [t["x"] for t in tr if t["kind"] == "response"][-1]
            p = [t for t in tr if t["kind"] == "potential"][-1]["occ"] @ sens.alpha + 0.1
            m.check(abs(np.std(x - p) / lat - 1) < 0.5, "latest_describes_data", f"noise deviation {np.std(x - p)}, reported {lat}")
    m.distinct("l", kind, sd)


def finish(m):
    # frequency: sum over all cases of one kind, per ratio and in total
    for name in sorted(k for k in m.data if k.startswith("freq:")):
        byr = {}
        for r, n, a in m.data[name]:
            t = byr.setdefault(r, [0, 0])
            t[0] += n
            t[1] += a
        for r, (n, a) in sorted(byr.items()):
            z = abs(a - r * n) / max(np.sqrt(n * r * (1 - r)), 1e-9) if 0 < r < 1 else (0 if a == r * n else 99)
            m.check(z < 6, "ratio_frequency", f"{name[5:]}: active in {a} of {n} at ratio {r} (z={z:.1f})")
            m.event(f"{name}:{r}", n)
    for name in sorted(k for k in m.data if k.startswith("pair:")):
        n = e = var = s = 0.0
        for r, k, same in m.data[name]:
            p = r * r + (1 - r) ** 2
            # pairs of one history overlap; the variance bound k is conservative enough together with the factor 1.5
            n, e, var, s = n + k, e + k * p, var + k * (0.25 if 0 < r < 1 else 0), s + same
        z = abs(s - e) / max(np.sqrt(1.5 * var), 1e-9)
        m.check(z < 6, "ratio_independence", f"{name[5:]}: {s} equal neighbours of {n}, expected {e:.1f} (z={z:.1f})")
